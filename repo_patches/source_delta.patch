From b2c6ee6a57d9d5cec4c6ec73092440bce3eb8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 01/31] fix: classify flood-fill groups without boundary votes
 by a point test

---
 queso/embedding/flood_fill.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/queso/embedding/flood_fill.cpp b/queso/embedding/flood_fill.cpp
index 8f72f86..2753fa7 100644
--- a/queso/embedding/flood_fill.cpp
+++ b/queso/embedding/flood_fill.cpp
@@ -108,7 +108,15 @@ Unique<StatusVectorType> FloodFill::ClassifyElements(GroupSetVectorType& rGroups
     // Mark states
     for( auto& r_group : rGroupsOutput ){
         int inside_count = std::get<2>(r_group);
-        auto state = (inside_count > 0) ? IntersectionState::inside : IntersectionState::outside;
+        bool is_inside = inside_count > 0;
+        if( inside_count == 0 && !std::get<1>(r_group).empty() ){
+            // No neighbouring boundary section has been found (e.g., the geometry fills the entire grid).
+            // All elements of a group share the same state. Thus, it is sufficient to test one center point.
+            const auto box = mGridIndexer.GetBoundingBoxXYZFromIndex(*std::get<1>(r_group).begin());
+            const PointType center = (0.5 * (box.lower + box.upper));
+            is_inside = mpBrepOperator->IsInside(center);
+        }
+        auto state = is_inside ? IntersectionState::inside : IntersectionState::outside;
         for( auto group_it = std::get<1>(r_group).begin(); group_it !=  std::get<1>(r_group).end(); ++group_it){
             states[*group_it] = state;
         }
-- 
2.43.0


From 9b6d0e744d45741d6c4242f6f719f85a4cfd1476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 02/31] fix: keep offset of ClipTriangleMeshUnique significant
 for large coordinates

---
 queso/embedding/brep_operator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index 552d9a6..f8db35a 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -242,7 +242,11 @@ ClippedTriangleMesh BRepOperator::ClipTriangleMesh(
 
 
 ClippedTriangleMesh BRepOperator::ClipTriangleMeshUnique(PointView rLowerBound, PointView rUpperBound ) const {
-    const PointType offset{30*ZEROTOL, 30*ZEROTOL, 30*ZEROTOL};
+    // The offset must remain significant w.r.t. the magnitude of the coordinates.
+    const auto get_offset = [&rLowerBound, &rUpperBound](IndexType Dir) {
+        return 30*ZEROTOL*std::max(1.0, std::max(std::abs(rLowerBound[Dir]), std::abs(rUpperBound[Dir])));
+    };
+    const PointType offset{get_offset(0), get_offset(1), get_offset(2)};
     const auto lower_bound = rLowerBound + offset;
     const auto upper_bound = rUpperBound + offset;
     double snap_tolerance = 1.0*ZEROTOL;
-- 
2.43.0


From 7448116d366d68674ef781f49860ed83dd5e9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 03/31] fix: do not lose condition triangles on the lower
 boundary of the grid

---
 queso/embedded_model.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 5e279f3..23a334a 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -13,6 +13,8 @@
 
 //// STL includes
 #include <omp.h>
+#include <algorithm>
+#include <cmath>
 
 //// Project includes
 #include "queso/embedded_model.h"
@@ -239,7 +241,17 @@ void EmbeddedModel::ComputeCondition(
     for (int for_index = 0; for_index < static_cast<int>(mGridIndexer.NumberOfElements()); ++for_index) {
         const auto index = static_cast<IndexType>(for_index);
         // Clip embedded geoemetry with the current element (bounding box).
-        const auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
+        auto bounding_box_xyz = mGridIndexer.GetBoundingBoxXYZFromIndex(index);
+        // Elements are clipped as half-open boxes (lower, upper]. Therefore, slightly extend the first layer of
+        // elements. Otherwise, triangles that lie on the lower boundary of the background grid are lost.
+        const auto matrix_indices = mGridIndexer.GetMatrixIndicesFromVectorIndex(index);
+        for (IndexType dir = 0; dir < 3; ++dir) {
+            if (matrix_indices[dir] == 0) {
+                const double max_coordinate =
+                    std::max(std::abs(bounding_box_xyz.lower[dir]), std::abs(bounding_box_xyz.upper[dir]));
+                bounding_box_xyz.lower[dir] -= 100 * ZEROTOL * std::max(1.0, max_coordinate);
+            }
+        }
         auto new_mesh = brep_operator.ClipTriangleMeshUnique(bounding_box_xyz.lower, bounding_box_xyz.upper);
 
         if (new_mesh.NumOfTriangles() > 0) {
-- 
2.43.0


From fce39daf9f5751282a3ad27f3f8b4cdfaf9c65b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 04/31] fix: do not treat wrapped-around elements as neighbors
 when assembling GGQ rules

---
 queso/quadrature/multiple_elements.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queso/quadrature/multiple_elements.hpp b/queso/quadrature/multiple_elements.hpp
index aa38a2f..74ab5eb 100644
--- a/queso/quadrature/multiple_elements.hpp
+++ b/queso/quadrature/multiple_elements.hpp
@@ -306,7 +306,9 @@ private:
     /// @return ElementType*
 	/// TODO: Remove this function.
     static ElementType* pNextElement(BackgroundGridType& rElements, IndexType CurrentId, Direction Dir ) {
-        return rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir).p_element;
+        const auto result = rElements.template GetNextElement<BackgroundGridType::ElementFilter::untrimmed>(CurrentId, Dir);
+        // At the end of a row, 'next' refers to an element of another row, which is not a neighbor.
+        return result.is_end ? nullptr : result.p_element;
     }
 
     /// @brief Helper function to compute the neighbor coefficient using a linear function.
-- 
2.43.0


From 883f5eb41795e8e4bdbb52bf65296902048983fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 05/31] fix: test point against entire mesh if the clipped
 section allows no test

A neighboring box that is only touched by the surface (along an edge or a
vertex) may clip to slivers. No ray test is performed for these, and the group
of inside elements was voted to be outside.
---
 queso/embedding/brep_operator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/brep_operator.cpp b/queso/embedding/brep_operator.cpp
index f8db35a..c853186 100644
--- a/queso/embedding/brep_operator.cpp
+++ b/queso/embedding/brep_operator.cpp
@@ -83,8 +83,6 @@ bool BRepOperator::OnBoundedSideOfClippedSection(const PointType& rPoint, PointV
 
     IndexType current_id = 0;
     const IndexType num_triangles = clipped_mesh.NumOfTriangles();
-    if( num_triangles == 0 ){ return false; }
-
     IndexType success_count = 0;
     int inside_count = 0;
     while( success_count < 10 && current_id < num_triangles ){
@@ -121,6 +119,10 @@ bool BRepOperator::OnBoundedSideOfClippedSection(const PointType& rPoint, PointV
         }
         ++current_id;
     }
+
+    // The clipped section may be empty or consist of slivers only. In this case, test against the entire mesh.
+    if( success_count == 0 ){ return IsInside(rPoint); }
+
     return inside_count > 0;
 }
 
-- 
2.43.0


From b88ecf1c368662dd53af299efe76c8802d0f2940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 06/31] fix: raise an error instead of terminating when an
 element id is added twice

---
 queso/containers/background_grid.hpp | 40 +++++++++++++++-------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index ad66735..7253f99 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -327,27 +327,31 @@ public:
         QuESo_ASSERT(!mElementsLocked, "Cannot add elements after LockElements() was called.");
         auto result = rBuilder.Build(Id, rBounds);
         if (!result) return false;
+        bool id_exists = false;// Exceptions must not leave the critical section.
 #pragma omp critical
         {
-            QuESo_ERROR_IF(mElementIdMap.contains(Id)) << "Element ID '" << Id << "' already exists.\n";
-            const auto location = [&]() {
-                if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
-                    const IndexType index = mTrimmedElements.size();
-                    mTrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ true, index };
-                } else {
-                    static_assert(
-                        TBuilderType::Builds == ElementFilter::untrimmed,
-                        "The builder must either support trimmed or untrimmed element construction."
-                    );
-
-                    const IndexType index = mUntrimmedElements.size();
-                    mUntrimmedElements.emplace_back(std::move(*result));
-                    return ElementStorageLocation{ false, index };
-                }
-            }();
-            mElementIdMap.emplace(Id, location);
+            id_exists = mElementIdMap.contains(Id);
+            if (!id_exists) {
+                const auto location = [&]() {
+                    if constexpr (TBuilderType::Builds == ElementFilter::trimmed) {
+                        const IndexType index = mTrimmedElements.size();
+                        mTrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ true, index };
+                    } else {
+                        static_assert(
+                            TBuilderType::Builds == ElementFilter::untrimmed,
+                            "The builder must either support trimmed or untrimmed element construction."
+                        );
+
+                        const IndexType index = mUntrimmedElements.size();
+                        mUntrimmedElements.emplace_back(std::move(*result));
+                        return ElementStorageLocation{ false, index };
+                    }
+                }();
+                mElementIdMap.emplace(Id, location);
+            }
         }
+        QuESo_ERROR_IF(id_exists) << "Element ID '" << Id << "' already exists.\n";
         return true;
     }
 
-- 
2.43.0


From 57bf40ef0df5c1cd5e66e4e8cafe7cc44a2d3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 07/31] fix: refuse a second volume and conditions without
 volume with an error instead of terminating

---
 queso/containers/background_grid.hpp | 5 +++++
 queso/embedded_model.cpp             | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/queso/containers/background_grid.hpp b/queso/containers/background_grid.hpp
index 7253f99..30df736 100644
--- a/queso/containers/background_grid.hpp
+++ b/queso/containers/background_grid.hpp
@@ -277,6 +277,11 @@ public:
     void LockElements() noexcept
     { mElementsLocked = true; }
 
+    /// @brief Returns true if the element container is locked. @see LockElements().
+    /// @return bool
+    [[nodiscard]] bool ElementsAreLocked() const noexcept
+    { return mElementsLocked; }
+
     /// @brief Traverses the grid in the requested direction and returns a view of the next element.
     /// @details TFilter controls which elements are considered:
     ///          `all`, `trimmed`, or `untrimmed`.
diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index 23a334a..e70c110 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -28,6 +28,7 @@ namespace queso {
 
 void EmbeddedModel::ComputeVolume(const TriangleMeshView& rTriangleMesh)
 {
+    QuESo_ERROR_IF(mBackgroundGrid.ElementsAreLocked()) << "The volume was already created.\n";
 
     CheckIfMeshIsWithinBoundingBox(rTriangleMesh);
 
@@ -201,6 +202,7 @@ void EmbeddedModel::ComputeCondition(
     const MainDictionaryType& rConditionSettings
 )
 {
+    QuESo_ERROR_IF(!mBackgroundGrid.ElementsAreLocked()) << "The volume must be created before the conditions.\n";
 
     CheckIfMeshIsWithinBoundingBox(rTriangleMesh);
 
-- 
2.43.0


From f95f7a36a5e56559543387e37a64ef697a7b4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 08/31] fix: accumulate the time of writing files

---
 queso/embedded_model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queso/embedded_model.cpp b/queso/embedded_model.cpp
index e70c110..b306258 100644
--- a/queso/embedded_model.cpp
+++ b/queso/embedded_model.cpp
@@ -344,7 +344,9 @@ void EmbeddedModel::WriteModelToFile() const
 
         // WriteFilesTimeInfo::
         auto& r_write_files_time_info = r_time_info[ElapsedTimeInfo::write_files_time_info];
-        r_write_files_time_info.SetValue(WriteFilesTimeInfo::total, measured_time);
+        r_write_files_time_info.CheckRequired();
+        const double total_time_write_files = r_write_files_time_info.GetRequiredValue<double>(WriteFilesTimeInfo::total);
+        r_write_files_time_info.SetValue(WriteFilesTimeInfo::total, (total_time_write_files + measured_time));
 
         /* End: Write to r_model_info */
 
-- 
2.43.0


From bcd67edd8ad85f709f33aed38139d1b44fcf49e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 09/31] fix: escape special characters when dictionaries are
 written as JSON

---
 queso/containers/data_set.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/queso/containers/data_set.hpp b/queso/containers/data_set.hpp
index 3e40f73..b59f76d 100644
--- a/queso/containers/data_set.hpp
+++ b/queso/containers/data_set.hpp
@@ -17,6 +17,7 @@
 //// STL includes
 #include <functional>
 #include <optional>
+#include <string_view>
 #include <vector>
 #include <variant>
 
@@ -95,7 +96,23 @@ public:
         void operator()(const Vector3i& rValue){mOstream << '[' << rValue[0] << ", " << rValue[1] << ", " << rValue[2] << ']';};
         void operator()(const IndexType& rValue){ mOstream << rValue;};
         void operator()(const double& rValue){mOstream << rValue;};
-        void operator()(const std::string& rValue){mOstream << '\"' << rValue << '\"';};
+        void operator()(const std::string& rValue){
+            mOstream << '\"';
+            for( const char c : rValue ) { // Escape special characters, s.t. the output is valid JSON.
+                switch( c ) {
+                    case '\"': mOstream << "\\\""; break;
+                    case '\\': mOstream << "\\\\"; break;
+                    default:
+                        if( static_cast<unsigned char>(c) < 0x20 ) {
+                            constexpr std::string_view hex = "0123456789abcdef";
+                            mOstream << "\\u00" << hex[static_cast<unsigned char>(c) >> 4] << hex[c & 0x0f];
+                        } else {
+                            mOstream << c;
+                        }
+                }
+            }
+            mOstream << '\"';
+        };
         void operator()(const bool& rValue){std::string out = (rValue) ? "true" : "false"; mOstream << out; };
         void operator()(const IntegrationMethodType& rValue){ mOstream << '\"' << rValue << '\"'; };
         void operator()(const GridTypeType& rValue){ mOstream << '\"' << rValue << '\"'; };
-- 
2.43.0


From 864e87868d89022f224da95c765dcc01a69bed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 10/31] fix: only True and False are booleans when values are
 set from Python

Negative integers were taken as booleans: they were refused as real numbers (also when
settings with values such as -3 were read back from JSON) and accepted as booleans.
---
 queso/python/bindings/dictionary_binder_helper.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queso/python/bindings/dictionary_binder_helper.hpp b/queso/python/bindings/dictionary_binder_helper.hpp
index aa8f2cf..b3b3eab 100644
--- a/queso/python/bindings/dictionary_binder_helper.hpp
+++ b/queso/python/bindings/dictionary_binder_helper.hpp
@@ -50,7 +50,8 @@ void DictionaryBinderHelper(py::class_<TDictType, Unique<TDictType>>& binder) {
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, const Vector3i& rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, bool rValue){
-        StringAccess::SetValue(rDictionary, rKeyName, rValue); });
+        StringAccess::SetValue(rDictionary, rKeyName, rValue); },
+            py::arg(), py::arg().noconvert()); // Only 'True' and 'False'. Negative integers are real numbers.
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, double rValue){
         StringAccess::SetValue(rDictionary, rKeyName, rValue); });
     binder.def("SetValue", [](TDictType& rDictionary, const std::string& rKeyName, IndexType rValue){
-- 
2.43.0


From 57d6da6ed789d4d49c31bce05bd4a91bce59b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 11/31] fix: read empty lists from JSON settings

---
 queso/python/scripts/json_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/scripts/json_io.py b/queso/python/scripts/json_io.py
index 05dd0e3..0408c49 100644
--- a/queso/python/scripts/json_io.py
+++ b/queso/python/scripts/json_io.py
@@ -78,7 +78,7 @@ class JsonIO():
             value (list): The list of values from JSON.
             queso_settings (QuESo.Dictionary): The settings object to modify.
         """
-        if( isinstance(value[0], dict) ):
+        if( all(isinstance(item, dict) for item in value) ): # Also true for an empty list.
             queso_list = queso_settings.GetList(string_key) # Just called to check key, and throw an error if necessary.
             cls._read_conditions_settings_list(value, queso_list)
         else:
-- 
2.43.0


From f4707f5171d0f0c205c64ae81a01d864800ea179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 12/31] fix: refuse unknown keys in JSON settings also if their
 value is not set

---
 queso/python/scripts/json_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queso/python/scripts/json_io.py b/queso/python/scripts/json_io.py
index 0408c49..00e4252 100644
--- a/queso/python/scripts/json_io.py
+++ b/queso/python/scripts/json_io.py
@@ -127,6 +127,8 @@ class JsonIO():
                 queso_settings.SetValue(string_key, enum_value )
             else:
                 queso_settings.SetValue(string_key, value )
+        else:
+            queso_settings.IsSet(string_key) # Just called to check key, and throw an error if necessary.
 
     @classmethod
     def _get_enum(cls,
-- 
2.43.0


From cee70e0d452243ab2a4aef0b1b908e03664bc2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 13/31] fix: octree reports the refinement levels it reached,
 not those of the last call

---
 queso/embedding/octree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/octree.cpp b/queso/embedding/octree.cpp
index 7dc65d1..c7f9f2a 100644
--- a/queso/embedding/octree.cpp
+++ b/queso/embedding/octree.cpp
@@ -11,6 +11,9 @@
 //
 //  Authors:    Manuel Messmer
 
+//// STL includes
+#include <algorithm>
+
 //// Project includes
 #include "queso/containers/boundary_integration_point.hpp"
 #include "queso/containers/trimmed_element.hpp"
@@ -135,8 +138,8 @@ template<typename TOperator>
 void Octree<TOperator>::Refine(IndexType MinLevel, IndexType MaxLevel){
     QuESo_ERROR_IF( MinLevel > MaxLevel ) << "MinLevel must be smaller/equal than MaxLevel. "
         << "Given MinLevel: " << MinLevel << ", MaxLevel: " << MaxLevel << ".\n";
-    mMinLevel = MinLevel;
-    mMaxLevel = MaxLevel;
+    mMinLevel = std::max(mMinLevel, MinLevel);
+    mMaxLevel = std::max(mMaxLevel, MaxLevel);
     mpRoot->Refine(MinLevel, MaxLevel, mpOperator);
 }
 
-- 
2.43.0


From 577b89f2b679e0f8fc7146b6ffd29903770305cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 14/31] fix: appending a mesh to itself copies the source first

---
 queso/utilities/mesh_utilities.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/queso/utilities/mesh_utilities.cpp b/queso/utilities/mesh_utilities.cpp
index d6e65fb..69d5bc5 100644
--- a/queso/utilities/mesh_utilities.cpp
+++ b/queso/utilities/mesh_utilities.cpp
@@ -97,6 +97,13 @@ void Refine(TriangleMesh &rTriangleMesh, IndexType MinNumberOfTriangles)
 
 void Append(TriangleMesh &rTriangleMesh, const TriangleMesh &rNewMesh)
 {
+    if (&rTriangleMesh == &rNewMesh) {
+        // The source must not change (or reallocate) while it is read.
+        const TriangleMesh copy(rNewMesh);
+        Append(rTriangleMesh, copy);
+        return;
+    }
+
     const IndexType initial_vertex_count = rTriangleMesh.NumOfVertices();
     const IndexType target_capacity = rTriangleMesh.NumOfTriangles() + rNewMesh.NumOfTriangles();
     rTriangleMesh.Reserve(target_capacity);
-- 
2.43.0


From 0c560aee7c89ff68af6c7472b1621d89bb96e04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 15/31] fix: ASCII STL writers keep single precision of small
 and large coordinates

---
 queso/io/io_utilities.cpp | 2 +-
 queso/io/io_utilities.tpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index c33ba8c..29e6a33 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -48,7 +48,7 @@ void IO::WriteMeshToSTL(const TriangleMeshView& rTriangleMesh,
             binary_writer.WriteValue(attribute_byte_count);
         });
     } else { // Ascii
-        file << std::fixed << std::setprecision(6);
+        file << std::scientific << std::setprecision(8); // Nine significant digits keep single precision.
         file << "solid QuESoExport\n";
         rTriangleMesh.VisitEachTriangle<WithNormals>([&file](const auto &triangle) {
             file << "facet normal " << triangle.Normal[0] << ' ' << triangle.Normal[1] << ' ' << triangle.Normal[2] << "\nouter loop\n";
diff --git a/queso/io/io_utilities.tpp b/queso/io/io_utilities.tpp
index 2fa1ca1..1df9371 100644
--- a/queso/io/io_utilities.tpp
+++ b/queso/io/io_utilities.tpp
@@ -70,7 +70,7 @@ void IO::WriteConditionToSTL(const Condition<TElementType>& rCondition,
             });
         }
     } else { // ascii
-        file << std::fixed << std::setprecision(6);
+        file << std::scientific << std::setprecision(8); // Nine significant digits keep single precision.
         file << "solid QuESoExport\n";
         for(const auto& r_segments : rCondition.GetSegments()) {
             const auto& r_triangle_mesh = r_segments.GetTriangleMesh();
-- 
2.43.0


From 590ccf4bcde1afbb7f3682094c11e5cf2f51c88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 16/31] fix: refuse STL files with unreadable or non-finite
 vertices

---
 queso/io/io_utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 29e6a33..9c345d4 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -12,6 +12,7 @@
 //  Authors:    Manuel Messmer
 
 //// STL includes
+#include <cmath>
 #include <map>
 //// Project includes
 #include "queso/io/io_utilities.h"
@@ -250,6 +251,8 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
                 iss >> word; // "vertex"
                 float xf, yf, zf;
                 iss >> xf >> yf >> zf;
+                QuESo_ERROR_IF(!iss || word != "vertex") << "Expected 'vertex' and three coordinates but got: " << line << '.' << std::endl;
+                QuESo_ERROR_IF(!std::isfinite(xf) || !std::isfinite(yf) || !std::isfinite(zf)) << "Vertex with non-finite coordinates: " << line << '.' << std::endl;
                 PointType vertex = PointType{static_cast<double>(xf),
                                              static_cast<double>(yf),
                                              static_cast<double>(zf)};
@@ -327,6 +330,7 @@ void IO::ReadMeshFromSTL_Binary(TriangleMesh& rTriangleMesh,
             float coords[3];
             file.read(reinterpret_cast<char*>(coords), sizeof(coords));
             QuESo_ERROR_IF(!file) << "Couldn't read triangle vertex." << std::endl;
+            QuESo_ERROR_IF(!std::isfinite(coords[0]) || !std::isfinite(coords[1]) || !std::isfinite(coords[2])) << "Vertex with non-finite coordinates." << std::endl;
 
             Vector3d vertex = {static_cast<double>(coords[0]),
                                static_cast<double>(coords[1]),
-- 
2.43.0


From b40f1adae83d879c771f4953e9d0e8eb917bfc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 17/31] fix: refuse binary STL files that are too short for
 their number of triangles

---
 queso/io/io_utilities.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 9c345d4..59c6ae0 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -312,6 +312,14 @@ void IO::ReadMeshFromSTL_Binary(TriangleMesh& rTriangleMesh,
     if(!(file.read(reinterpret_cast<char*>(&num_triangles), sizeof(num_triangles)))) {
         QuESo_ERROR << "Couldnt read number of triangles." << std::endl;
     }
+    // Check if file contains all triangles (50 bytes each) before memory is reserved for them.
+    const std::streamoff data_begin = file.tellg();
+    file.seekg(0, std::ios::end);
+    const std::streamoff data_size = file.tellg() - data_begin;
+    QuESo_ERROR_IF(data_size < static_cast<std::streamoff>(num_triangles) * 50)
+        << "File " << rFilename << " is corrupted. It does not contain " << num_triangles << " triangles." << std::endl;
+    file.seekg(data_begin, std::ios::beg);
+
     rTriangleMesh.Clear();
     rTriangleMesh.Reserve(static_cast<IndexType>(num_triangles));
 
-- 
2.43.0


From 74663e0bd33bbfcf2a38ea2d3f635699369a651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 18/31] fix: ASCII STL reader accepts solid names that contain
 facet

---
 queso/io/io_utilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 59c6ae0..3f52ff5 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -223,6 +223,9 @@ void IO::ReadMeshFromSTL_Ascii(TriangleMesh& rTriangleMesh,
 
     std::string line;
 
+    // Skip first line ("solid name"). The name may contain "facet".
+    std::getline(file, line);
+
     // Skip lines until we hit the first "facet"
     while (std::getline(file, line)) {
         if (line.find("facet") != std::string::npos) {
-- 
2.43.0


From fe09773710939890ae922f29ba425822c1a199ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 19/31] fix: ASCII VTK writers keep double precision of small
 coordinates and weights

---
 queso/io/io_utilities.cpp | 2 +-
 queso/io/io_utilities.tpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/queso/io/io_utilities.cpp b/queso/io/io_utilities.cpp
index 3f52ff5..3ad0261 100644
--- a/queso/io/io_utilities.cpp
+++ b/queso/io/io_utilities.cpp
@@ -96,7 +96,7 @@ void IO::WriteMeshToVTK(const TriangleMeshView& rTriangleMesh,
     file << "DATASET UNSTRUCTURED_GRID\n";
 
     if(Encoding == EncodingType::ascii) {
-        file << std::fixed << std::setprecision(15);
+        file << std::scientific << std::setprecision(16); // Seventeen significant digits keep double precision.
     }
 
     file << "POINTS " << num_points << " double\n";
diff --git a/queso/io/io_utilities.tpp b/queso/io/io_utilities.tpp
index 1df9371..9143776 100644
--- a/queso/io/io_utilities.tpp
+++ b/queso/io/io_utilities.tpp
@@ -110,7 +110,7 @@ void IO::WriteElementsToVTK(
     file << "DATASET UNSTRUCTURED_GRID\n";
 
     if(Encoding == EncodingType::ascii) {
-        file << std::fixed << std::setprecision(15);
+        file << std::scientific << std::setprecision(16); // Seventeen significant digits keep double precision.
     }
 
     // Write points
@@ -200,7 +200,7 @@ void IO::WritePointsToVTK(
     file << "DATASET UNSTRUCTURED_GRID\n";
 
     if(Encoding == EncodingType::ascii) {
-        file << std::fixed << std::setprecision(15);
+        file << std::scientific << std::setprecision(16); // Seventeen significant digits keep double precision.
     }
 
     // Write points
-- 
2.43.0


From ff4a44af3e264b17ab99c798530a3adb626a2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 20/31] fix: binary writer reports a failed last write instead
 of terminating the process

---
 queso/io/binary_buffer_writer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/queso/io/binary_buffer_writer.hpp b/queso/io/binary_buffer_writer.hpp
index f160a0e..c7eabc4 100644
--- a/queso/io/binary_buffer_writer.hpp
+++ b/queso/io/binary_buffer_writer.hpp
@@ -54,9 +54,11 @@ public:
     {
     }
 
-    /// Destructor
+    /// Destructor. Must not throw. If the last write fails, the error is kept in the state of the filestream.
     ~BinaryBufferWriter() {
-        Flush();
+        if (mBufferPos > 0) {
+            mOut.write(mBuffer.data(), static_cast<long int>(mBufferPos));
+        }
     }
 
     /// Delete copy and move operators.
-- 
2.43.0


From b5df4a0545cfd9d3ac37648be675c4158aa8ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 21/31] fix: PyQuESo.GetIntegrationPoints reads the weight of a
 point as the property it is

---
 queso/python/PyQuESo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/PyQuESo.py b/queso/python/PyQuESo.py
index 2b1c58e..b05cdb3 100644
--- a/queso/python/PyQuESo.py
+++ b/queso/python/PyQuESo.py
@@ -91,7 +91,7 @@ class PyQuESo:
         for element in self.GetElements():
             if element.IsTrimmed():
                 for point_trimmed_reduced in element.GetIntegrationPoints():
-                    weight = point_trimmed_reduced.Weight()
+                    weight = point_trimmed_reduced.weight
                     if( weight > 0):
                         integration_points.append(point_trimmed_reduced)
             else:
-- 
2.43.0


From 35f8006530b56a25e497cccf58fd6f5304c7c33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 22/31] fix: elements handed out to Python keep the model or
 grid they view alive

---
 .../bindings/add_containers_to_python.cpp     | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 1eca5a2..58b57fe 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -76,6 +76,20 @@ inline std::tuple<double, double, double> ToTuple3(const Vector3d &rV)
     return { rV[0], rV[1], rV[2] };
 }
 
+/// @brief Returns a list of all elements. Each element is a view and keeps the object it is taken from alive.
+/// @tparam TOwner Type that provides the element views.
+template<class TOwner>
+py::list GetElementsToPython(const py::object &rOwner)
+{
+    py::list elements;
+    for (const auto &r_view : rOwner.cast<const TOwner &>().GetElementViews()) {
+        py::object element = py::cast(ElementViewType(r_view));
+        py::detail::keep_alive_impl(element, rOwner);
+        elements.append(std::move(element));
+    }
+    return elements;
+}
+
 } // namespace
 
 using namespace pybind11::literals;
@@ -224,17 +238,7 @@ void AddContainersToPython(pybind11::module& m) {
 	using GridType = BackgroundGridType;
 	py::class_<GridType>(m, "BackgroundGrid")
 		.def(py::init<const GridType::MainDictionaryType&>())
-		.def(
-			"GetElements",
-			[](const GridType& rGrid) {
-				std::vector<ElementViewType> elements;
-				const auto views = rGrid.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			},
-			py::keep_alive<0, 1>()
-		)
+		.def("GetElements", &GetElementsToPython<GridType>)
 		.def("NumberOfActiveElements", &GridType::NumberOfActiveElements)
 		.def("GetConditions", &GridType::GetConditions, py::return_value_policy::reference_internal)
 		.def("NumberOfConditions", &GridType::NumberOfConditions);
@@ -275,14 +279,7 @@ void AddContainersToPython(pybind11::module& m) {
             return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
         }))
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
-		.def("GetElements",
-			[](const EmbeddedModel& rEmbeddedModel) {
-				std::vector<ElementViewType> elements;
-				const auto views = rEmbeddedModel.GetElementViews();
-				elements.reserve(views.size());
-				std::ranges::copy(views, std::back_inserter(elements));
-				return elements;
-			})
+        .def("GetElements", &GetElementsToPython<EmbeddedModel>)
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
         .def("GetSettings", &EmbeddedModel::GetSettings, py::return_value_policy::reference_internal)
         .def("GetModelInfo", static_cast<const EmbeddedModel::MainDictionaryType& (EmbeddedModel::*)() const>(&EmbeddedModel::GetModelInfo),
-- 
2.43.0


From ff33fe75c0495061160245f8f2ec5de0cc9b83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 23/31] fix: iterator over condition segments keeps the
 segments alive in Python

---
 queso/python/bindings/add_containers_to_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 58b57fe..714cf30 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -255,7 +255,7 @@ void AddContainersToPython(pybind11::module& m) {
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
-        })
+        }, py::keep_alive<0, 1>())
     ;
 
     /// Export Condition
-- 
2.43.0


From 4f047a79b7ae2f1199f347800c7d8c00effa05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 24/31] fix: triangles handed out to Python own their
 coordinates

---
 .../bindings/add_containers_to_python.cpp     | 49 +++++++++++++------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 714cf30..2458c92 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -56,7 +56,26 @@ namespace py = pybind11;
 
 namespace {
 
-using PythonTriangleProxy = TriangleProxy<WithNormals>;
+/// @brief Triangle handed out to Python. Owns its coordinates, as the mesh it is taken from may change or be deleted.
+struct PythonTriangle {
+    explicit PythonTriangle(const TriangleProxy<WithNormals> &rTriangle)
+        : mP1{ rTriangle.P1[0], rTriangle.P1[1], rTriangle.P1[2] },
+          mP2{ rTriangle.P2[0], rTriangle.P2[1], rTriangle.P2[2] },
+          mP3{ rTriangle.P3[0], rTriangle.P3[1], rTriangle.P3[2] },
+          mNormal{ rTriangle.Normal[0], rTriangle.Normal[1], rTriangle.Normal[2] }
+    {}
+
+    TriangleProxy<WithNormals> Proxy() const
+    {
+        return { std::span<const double, 3>(mP1.data(), 3), std::span<const double, 3>(mP2.data(), 3),
+            std::span<const double, 3>(mP3.data(), 3), std::span<const double, 3>(mNormal.data(), 3) };
+    }
+
+    Vector3d mP1;
+    Vector3d mP2;
+    Vector3d mP3;
+    Vector3d mNormal;
+};
 
 struct TriangleIteratorTag {};
 
@@ -101,7 +120,7 @@ void AddContainersToPython(pybind11::module& m) {
             if (self.mIndex >= self.mpMesh->NumOfTriangles()) {
                 throw py::stop_iteration();
             }
-            return self.mpMesh->Triangle<WithNormals>(self.mIndex++);
+            return PythonTriangle(self.mpMesh->Triangle<WithNormals>(self.mIndex++));
         })
     ;
 
@@ -115,22 +134,22 @@ void AddContainersToPython(pybind11::module& m) {
         })
     ;
 
-    py::class_<PythonTriangleProxy>(m, "Triangle")
-        .def_property_readonly("p1", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P1[0], self.P1[1], self.P1[2]}); })
-        .def_property_readonly("p2", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P2[0], self.P2[1], self.P2[2]}); })
-        .def_property_readonly("p3", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.P3[0], self.P3[1], self.P3[2]}); })
-        .def_property_readonly("normal", [](const PythonTriangleProxy &self){ return ToTuple3(Vector3d{self.Normal[0], self.Normal[1], self.Normal[2]}); })
-        .def("Area", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::Area(self);
+    py::class_<PythonTriangle>(m, "Triangle")
+        .def_property_readonly("p1", [](const PythonTriangle &self){ return ToTuple3(self.mP1); })
+        .def_property_readonly("p2", [](const PythonTriangle &self){ return ToTuple3(self.mP2); })
+        .def_property_readonly("p3", [](const PythonTriangle &self){ return ToTuple3(self.mP3); })
+        .def_property_readonly("normal", [](const PythonTriangle &self){ return ToTuple3(self.mNormal); })
+        .def("Area", [](const PythonTriangle &self){
+            return TriangleUtilities::Area(self.Proxy());
         })
-        .def("Center", [](const PythonTriangleProxy &self){
-            return ToTuple3(TriangleUtilities::Center(self));
+        .def("Center", [](const PythonTriangle &self){
+            return ToTuple3(TriangleUtilities::Center(self.Proxy()));
         })
-        .def("AspectRatio", [](const PythonTriangleProxy &self){
-            return TriangleUtilities::AspectRatio(self);
+        .def("AspectRatio", [](const PythonTriangle &self){
+            return TriangleUtilities::AspectRatio(self.Proxy());
         })
-        .def("GetIPsGlobal", [](const PythonTriangleProxy &self, IndexType Method){
-            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self, Method);
+        .def("GetIPsGlobal", [](const PythonTriangle &self, IndexType Method){
+            return TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPointType>(self.Proxy(), Method);
         }, py::return_value_policy::move)
     ;
 
-- 
2.43.0


From 09c2e82c42504edcafac4b706f8f78e35483c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 25/31] fix: index beyond the end of a list of dictionaries or
 segments raises IndexError in Python

---
 queso/python/bindings/add_containers_to_python.cpp | 6 +++++-
 queso/python/bindings/add_dictionary_to_python.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 2458c92..552ddb5 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -270,7 +270,11 @@ void AddContainersToPython(pybind11::module& m) {
     // Export ConditionSegment Vector
     py::class_<ConditionSegmentVectorType>(m, "ConditionSegmentVector")
         .def("__getitem__", [](const ConditionSegmentVectorType &self, const IndexType i)
-            { return &self[i]; }, py::return_value_policy::reference_internal)
+            {
+                if (i >= self.size())
+                    throw py::index_error();
+                return &self[i];
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const ConditionSegmentVectorType &self) { return self.size(); })
         .def("__iter__", [](ConditionSegmentVectorType &self) {
             return py::make_iterator(self.begin(), self.end());
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index dd2d9a6..ec9895b 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -54,7 +54,11 @@ void AddDictionaryToPython(pybind11::module& m) {
     // Export vector
     py::class_<DictionaryVectorPtrType>(m, "DictionaryList")
         .def("__getitem__", [](DictionaryVectorPtrType &self, IndexType i)
-            { return &(*self[i]); }, py::return_value_policy::reference_internal)
+            {
+                if (i >= self.size())
+                    throw py::index_error();
+                return &(*self[i]);
+            }, py::return_value_policy::reference_internal)
         .def("__len__", [](const DictionaryVectorPtrType &self) { return self.size(); })
         .def("__iter__", [](DictionaryVectorPtrType &self) {
             return py::make_iterator( dereference_iterator(self.begin()), dereference_iterator(self.end()) );
-- 
2.43.0


From 5decb2e81dae6fbf97f4364261fa3a96347fc329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 26/31] fix: TriangleMesh.AddTriangle raises IndexError in
 Python if a vertex does not exist

---
 queso/python/bindings/add_containers_to_python.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 552ddb5..3061907 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -231,6 +231,10 @@ void AddContainersToPython(pybind11::module& m) {
         .def("AddTriangle", [](TriangleMesh& self, const std::array<IndexType,3>& rTriangle){
             const Vector3i triangle_indices(rTriangle);
             const auto &vertices = self.Vertices();
+            for (const IndexType index : rTriangle) {
+                if (index >= vertices.size())
+                    throw py::index_error("AddTriangle :: Vertex index is out of range.");
+            }
             const TriangleProxy<WithoutNormals> triangle {
                 std::span<const double, 3>(vertices[triangle_indices[0]].data(), 3),
                 std::span<const double, 3>(vertices[triangle_indices[1]].data(), 3),
-- 
2.43.0


From 48be3f24613d2aaf3f85a290949a89a64b43d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 27/31] fix: dictionary obtained from a holder stays valid in
 Python after the holder is released to a list or model

---
 queso/python/bindings/add_containers_to_python.cpp | 2 +-
 queso/python/bindings/add_dictionary_to_python.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/python/bindings/add_containers_to_python.cpp b/queso/python/bindings/add_containers_to_python.cpp
index 3061907..ff9cf17 100644
--- a/queso/python/bindings/add_containers_to_python.cpp
+++ b/queso/python/bindings/add_containers_to_python.cpp
@@ -304,7 +304,7 @@ void AddContainersToPython(pybind11::module& m) {
     py::class_<EmbeddedModel>(m,"EmbeddedModel")
         .def(py::init([](MainDictionaryHolderType& rSettings) {
             return MakeUnique<EmbeddedModel>(EmbeddedModel::Create(rSettings.Release()));
-        }))
+        }), py::keep_alive<2, 1>()) // References obtained from the holder stay valid.
         .def("CreateAllFromSettings", &EmbeddedModel::CreateAllFromSettings)
         .def("GetElements", &GetElementsToPython<EmbeddedModel>)
         .def("GetConditions", &EmbeddedModel::GetConditions, py::return_value_policy::reference_internal)
diff --git a/queso/python/bindings/add_dictionary_to_python.cpp b/queso/python/bindings/add_dictionary_to_python.cpp
index ec9895b..97e7155 100644
--- a/queso/python/bindings/add_dictionary_to_python.cpp
+++ b/queso/python/bindings/add_dictionary_to_python.cpp
@@ -65,7 +65,7 @@ void AddDictionaryToPython(pybind11::module& m) {
         }, py::keep_alive<0, 1>() )
         .def("append", [](DictionaryVectorPtrType& self, MainDictionaryHolderType& rDictionaryHolder){
             self.push_back(std::move(rDictionaryHolder.Release()));
-        } )
+        }, py::keep_alive<2, 1>() ) // References obtained from the holder stay valid.
     ;
 
 } // End AddDictionaryToPython
-- 
2.43.0


From 581ee37a1da23ca54b25cab853018a787aebec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 28/31] fix: SurfaceLoad with a direction of zero length raises
 an error instead of applying NaN loads

---
 kratos_interface/weak_bcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kratos_interface/weak_bcs.py b/kratos_interface/weak_bcs.py
index bc0b9eb..7f3ef50 100644
--- a/kratos_interface/weak_bcs.py
+++ b/kratos_interface/weak_bcs.py
@@ -215,7 +215,7 @@ class SurfaceLoad(WeakBcsBase):
         direction_array = np.array(direction)
         norm_direction = np.linalg.norm(direction_array)
         if norm_direction < 1e-10:
-            Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
+            raise Exception("SurfaceLoad :: Norm of 'direction' is close to zero.")
         normalized_direction = direction_array / norm_direction
         self.force = modulus * normalized_direction
 
-- 
2.43.0


From 0574beebf31d839efaf672403e5e34beb5fe6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:45 +0000
Subject: [PATCH 29/31] fix: NNLS takes only columns that are independent
 beyond round-off

---
 external_libraries/nnls/nnls_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/external_libraries/nnls/nnls_impl.h b/external_libraries/nnls/nnls_impl.h
index b4ff958..718e89e 100644
--- a/external_libraries/nnls/nnls_impl.h
+++ b/external_libraries/nnls/nnls_impl.h
@@ -238,7 +238,7 @@ L60:
 	}
     }
     unorm = sqrt(unorm);
-    d__2 = unorm + (d__1 = a[npp1 + j * a_dim1], nnls_abs(d__1)) * .01;
+    d__2 = unorm + (d__1 = a[npp1 + j * a_dim1], nnls_abs(d__1)) * 1e-4;
     if (diff_(&d__2, &unorm) > 0.) {
 
 /*        COL J IS SUFFICIENTLY INDEPENDENT.  COPY B INTO ZZ, UPDATE Z
-- 
2.43.0


From b0cdac4a4dac45dbcdecc1abe0f8a01e0a777ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 30/31] fix: point elimination does not read beyond the points
 when there are fewer than moments

---
 queso/quadrature/trimmed_element.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/queso/quadrature/trimmed_element.hpp b/queso/quadrature/trimmed_element.hpp
index 3a4ff4c..1ce6ed0 100644
--- a/queso/quadrature/trimmed_element.hpp
+++ b/queso/quadrature/trimmed_element.hpp
@@ -424,10 +424,12 @@ protected:
                     }
                 );
                 // Only keep #number_of_functions integration points.
-                rIntegrationPoint.erase(
-                    rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
-                    rIntegrationPoint.end()
-                );
+                if (rIntegrationPoint.size() > number_of_functions) {
+                    rIntegrationPoint.erase(
+                        rIntegrationPoint.begin() + static_cast<std::ptrdiff_t>(number_of_functions),
+                        rIntegrationPoint.end()
+                    );
+                }
 
                 // Additionally remove all points that are zero.
                 rIntegrationPoint.erase(
-- 
2.43.0


From f33530a072856455735e6caa9a16b977c700c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:23 +0000
Subject: [PATCH 31/31] fix: querying the tree of a mesh without triangles does
 not read beyond its nodes

---
 queso/embedding/aabb_tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queso/embedding/aabb_tree.cpp b/queso/embedding/aabb_tree.cpp
index 52dcb03..c5eea17 100644
--- a/queso/embedding/aabb_tree.cpp
+++ b/queso/embedding/aabb_tree.cpp
@@ -45,12 +45,12 @@ std::vector<IndexType> AABB_tree::Query(const AABB_primitive_base& rAABB_primiti
         IndexType node = stack.back();
         stack.pop_back();
 
+        if (node == NULL_NODE) continue;
+
         /// TODO: remove this copy (pass lower_bound and upper_bound to intersect())
         const auto& r_aabb_base = BaseTreeType::Nodes()[node].aabb_base;
         const AABB_primitive aabb{r_aabb_base.lowerBound, r_aabb_base.upperBound};
 
-        if (node == NULL_NODE) continue;
-
         // Test for overlap between the AABBs.
         if (rAABB_primitive.intersect(aabb) )
         {
-- 
2.43.0

