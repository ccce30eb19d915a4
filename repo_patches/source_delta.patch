From b450100ea9b3ddcfaaef48b2ea4eba21a8a8a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 01/33] fix: close the datatype handle of an attribute

H5Aget_type returns a handle that the caller must close. The Datatype
constructor for a raw handle does not close it.
---
 source/data_model/hdf5/source/attribute.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/attribute.cpp b/source/data_model/hdf5/source/attribute.cpp
index 5ddef63..48374f4 100644
--- a/source/data_model/hdf5/source/attribute.cpp
+++ b/source/data_model/hdf5/source/attribute.cpp
@@ -10,7 +10,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier&& id):
 
         _id{std::move(id)},
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
@@ -26,7 +26,7 @@ namespace lue::hdf5 {
     Attribute::Attribute(Identifier const& location, std::string const& name):
 
         _id(H5Aopen(location, name.c_str(), H5P_DEFAULT), H5Aclose),
-        _datatype{H5Aget_type(_id)},
+        _datatype{Identifier{H5Aget_type(_id), H5Tclose}},
         _dataspace{H5Aget_space(_id)}
 
     {
-- 
2.43.0


From 6d439f66fc64c2d2454f3b6986b0a8777f41c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 02/33] fix: report objects and soft links that cannot be
 opened or read

PrimaryDataObject(location, name) returned an object without a valid handle
when H5Oopen failed, and SoftLink::path returned filler characters when
H5Lget_val failed in builds without assertions.
---
 source/data_model/hdf5/source/primary_data_object.cpp | 6 ++++++
 source/data_model/hdf5/source/soft_link.cpp           | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/source/primary_data_object.cpp b/source/data_model/hdf5/source/primary_data_object.cpp
index 868a317..8f8ab2f 100644
--- a/source/data_model/hdf5/source/primary_data_object.cpp
+++ b/source/data_model/hdf5/source/primary_data_object.cpp
@@ -1,4 +1,6 @@
 #include "lue/hdf5/primary_data_object.hpp"
+#include <format>
+#include <stdexcept>
 
 
 namespace lue::hdf5 {
@@ -8,6 +10,10 @@ namespace lue::hdf5 {
         PrimaryDataObject{Identifier{H5Oopen(location, name.c_str(), H5P_DEFAULT), H5Oclose}}
 
     {
+        if (!_id.is_valid())
+        {
+            throw std::runtime_error(std::format("Object {} cannot be opened", name));
+        }
     }
 
 
diff --git a/source/data_model/hdf5/source/soft_link.cpp b/source/data_model/hdf5/source/soft_link.cpp
index 02b676b..4f04ace 100644
--- a/source/data_model/hdf5/source/soft_link.cpp
+++ b/source/data_model/hdf5/source/soft_link.cpp
@@ -1,6 +1,7 @@
 #include "lue/hdf5/soft_link.hpp"
 #include "lue/hdf5/group.hpp"
 #include <format>
+#include <stdexcept>
 
 
 namespace lue::hdf5 {
@@ -21,9 +22,13 @@ namespace lue::hdf5 {
         std::string name;
         name.resize(nr_bytes, 'x');
 
-        [[maybe_unused]] herr_t const result{
+        herr_t const status{
             H5Lget_val(location_id(), this->name().c_str(), name.data(), nr_bytes, H5P_DEFAULT)};
-        assert(result >= 0);
+
+        if (status < 0)
+        {
+            throw std::runtime_error(std::format("Cannot read target of soft link {}", this->name()));
+        }
 
         name.resize(nr_bytes - 1);
 
-- 
2.43.0


From d4d862676d1f0a083c519117490b80ff8ae12c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 03/33] fix: do not count skipped elements as selected by a
 strided hyperslab

---
 source/data_model/hdf5/source/hyperslab.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hdf5/source/hyperslab.cpp b/source/data_model/hdf5/source/hyperslab.cpp
index 7d3952a..81d8895 100644
--- a/source/data_model/hdf5/source/hyperslab.cpp
+++ b/source/data_model/hdf5/source/hyperslab.cpp
@@ -155,7 +155,7 @@ namespace lue::hdf5 {
 
             for (std::size_t i = 0; i < nr_dimensions(); ++i)
             {
-                result *= (_stride[i] * _count[i]);
+                result *= _count[i];
             }
         }
 
-- 
2.43.0


From dd26bdb937b5073d62e77699cd9f9fa6313e1140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:54 +0000
Subject: [PATCH 04/33] fix: replace an attribute when the size of the new
 value differs

---
 .../hdf5/include/lue/hdf5/attribute.hpp       | 21 +++++++++++++++++++
 .../hdf5/include/lue/hdf5/attributes.hpp      | 13 ++++++++++--
 source/data_model/hdf5/source/attributes.cpp  | 13 ++++++++++++
 3 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
index 6c6f486..e980569 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attribute.hpp
@@ -140,6 +140,27 @@ namespace lue::hdf5 {
             auto dataspace() const -> Dataspace const&;
 
 
+            /*!
+                @brief      Return whether the size of @a value equals the size of the stored value
+            */
+            template<typename T>
+            auto can_contain(T const& value) const -> bool
+            {
+                if constexpr (std::is_same_v<T, std::string>)
+                {
+                    return datatype().size() == value.size();
+                }
+                else if constexpr (requires { value.size(); })
+                {
+                    return dataspace().nr_elements() == static_cast<hssize_t>(value.size());
+                }
+                else
+                {
+                    return true;
+                }
+            }
+
+
             /*!
                 @brief      Write attribute value
                 @tparam     T Type of value to write
diff --git a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
index b5dd6c8..944f716 100644
--- a/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
+++ b/source/data_model/hdf5/include/lue/hdf5/attributes.hpp
@@ -22,7 +22,9 @@ namespace lue::hdf5 {
             /*!
                 @brief      Store @a value of attribute @a name
 
-                In case no attribute named @a name exists, it is created.
+                In case no attribute named @a name exists, it is created. In case
+                an attribute exists whose text length or number of elements differs
+                from that of @a value, it is replaced.
             */
             template<typename T>
             void write(std::string const& name, T const& value)
@@ -33,10 +35,15 @@ namespace lue::hdf5 {
                 {
                     create_attribute(_id, name, value);
                 }
-                else
+                else if (attribute(name).can_contain(value))
                 {
                     attribute(name).write<T>(value);
                 }
+                else
+                {
+                    remove(name);
+                    create_attribute(_id, name, value);
+                }
             }
 
 
@@ -57,6 +64,8 @@ namespace lue::hdf5 {
 
             auto datatype(std::string const& name) const -> Datatype;
 
+            void remove(std::string const& name);
+
         private:
 
             //! Identifier of object owning the attributes
diff --git a/source/data_model/hdf5/source/attributes.cpp b/source/data_model/hdf5/source/attributes.cpp
index 61099c0..750aaef 100644
--- a/source/data_model/hdf5/source/attributes.cpp
+++ b/source/data_model/hdf5/source/attributes.cpp
@@ -60,4 +60,17 @@ namespace lue::hdf5 {
         return attribute(name).datatype();
     }
 
+
+    /*!
+        @brief      Remove the attribute named @a name
+        @exception  std::runtime_error In case the attribute cannot be removed
+    */
+    void Attributes::remove(std::string const& name)
+    {
+        if (H5Adelete(_id, name.c_str()) < 0)
+        {
+            throw std::runtime_error("Cannot remove attribute");
+        }
+    }
+
 }  // namespace lue::hdf5
-- 
2.43.0


From 881511044fb1c0a0c78e56de9e9beac1064ac788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:35 +0000
Subject: [PATCH 05/33] fix: create the object arrays with the rank of the
 value when expanding by flat shapes

---
 source/data_model/cxx/source/array/different_shape/value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/different_shape/value.cpp b/source/data_model/cxx/source/array/different_shape/value.cpp
index 5e9d295..a0fedac 100644
--- a/source/data_model/cxx/source/array/different_shape/value.cpp
+++ b/source/data_model/cxx/source/array/different_shape/value.cpp
@@ -77,7 +77,7 @@ namespace lue::data_model::different_shape {
         for (Index object_idx = 0, shape_idx = 0; object_idx < nr_objects; ++object_idx, shape_idx += rank)
         {
             // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-            expand_core(ids[object_idx], hdf5::Shape{shapes[shape_idx], shapes[shape_idx + 1]});
+            expand_core(ids[object_idx], hdf5::Shape(shapes + shape_idx, shapes + shape_idx + rank));
         }
 
         _nr_objects += nr_objects;
-- 
2.43.0


From 6f8243e28aa722605222d575726c3c3a15c85ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 06/33] fix: pass on the in-memory datatype when opening the
 arrays of a location in time

---
 .../cxx/source/array/same_shape/variable_shape/value.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
index 4c50fe0..b0be844 100644
--- a/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
+++ b/source/data_model/cxx/source/array/same_shape/variable_shape/value.cpp
@@ -68,7 +68,7 @@ namespace lue::data_model::same_shape::variable_shape {
     {
         std::string const name{std::to_string(idx)};
 
-        return same_shape::Value{*this, name};
+        return same_shape::Value{*this, name, memory_datatype()};
     }
 
 
-- 
2.43.0


From 6ef3e685249bd791bcb982439f88fbf4ad20f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 07/33] fix: refuse raster layers named after an existing
 property of another kind

---
 source/data_model/hl/source/raster_view.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 7ccbf5c..6908d61 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -286,14 +286,10 @@ namespace lue::data_model {
             auto& space_discretization_property{
                 properties.template collection<same_shape::Properties>()[space_discretization_property_name]};
 
-            using RasterProperties = different_shape::Properties;
             using RasterProperty = different_shape::Property;
 
-            RasterProperties& raster_properties{properties.template collection<RasterProperties>()};
-
-            assert(!raster_properties.contains(name));
-
-            RasterProperty& raster_property{raster_properties.add(name, datatype, 2)};
+            Rank const rank{2};
+            RasterProperty& raster_property{properties.add(name, datatype, rank)};
 
             raster_property.value().expand(this->object_id(), this->grid_shape(), no_data_value);
 
@@ -555,15 +551,10 @@ namespace lue::data_model {
             auto& space_discretization_property =
                 properties.template collection<same_shape::Properties>()[space_discretization_property_name];
 
-            using RasterProperties = different_shape::constant_shape::Properties;
             using RasterProperty = different_shape::constant_shape::Property;
 
-            RasterProperties& raster_properties{properties.template collection<RasterProperties>()};
-
-            assert(!raster_properties.contains(name));
-
             Rank const rank{3};
-            RasterProperty& raster_property{raster_properties.add(name, datatype, rank)};
+            RasterProperty& raster_property{properties.template add<RasterProperty>(name, datatype, rank)};
 
             hdf5::Shape object_array_shape(1 + this->grid_shape().size());
             object_array_shape[0] = nr_time_steps();
-- 
2.43.0


From 755b3388780a13dec9ba451b448a51937a1ad0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 08/33] fix: order clocks consistently and compare their epochs

---
 source/data_model/cxx/include/lue/core/time/epoch.hpp | 2 ++
 source/data_model/cxx/source/core/clock.cpp           | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/data_model/cxx/include/lue/core/time/epoch.hpp b/source/data_model/cxx/include/lue/core/time/epoch.hpp
index 998022b..754d853 100644
--- a/source/data_model/cxx/include/lue/core/time/epoch.hpp
+++ b/source/data_model/cxx/include/lue/core/time/epoch.hpp
@@ -60,6 +60,8 @@ namespace lue::data_model::time {
 
             auto operator=(Epoch&& other) -> Epoch& = default;
 
+            auto operator==(Epoch const& other) const -> bool = default;
+
             auto kind() const -> Kind;
 
             auto origin() const -> std::optional<std::string> const&;
diff --git a/source/data_model/cxx/source/core/clock.cpp b/source/data_model/cxx/source/core/clock.cpp
index 3baa29e..42948bc 100644
--- a/source/data_model/cxx/source/core/clock.cpp
+++ b/source/data_model/cxx/source/core/clock.cpp
@@ -1,4 +1,5 @@
 #include "lue/core/clock.hpp"
+#include <tuple>
 
 
 namespace lue::data_model {
@@ -41,7 +42,7 @@ namespace lue::data_model {
 
     auto Clock::operator==(Clock const& other) const -> bool
     {
-        return _unit == other._unit && _nr_units == other._nr_units;
+        return _epoch == other._epoch && _unit == other._unit && _nr_units == other._nr_units;
     }
 
 
@@ -53,7 +54,7 @@ namespace lue::data_model {
 
     auto Clock::operator<(Clock const& other) const -> bool
     {
-        return _unit < other._unit || _nr_units < other._nr_units;
+        return std::tie(_unit, _nr_units) < std::tie(other._unit, other._nr_units);
     }
 
 }  // namespace lue::data_model
-- 
2.43.0


From b104b42dfbbc9d46298b47ecc55b77c413b95001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 09/33] fix: compare active sets of collection properties with
 the active object indices

The size of the collection of active object IDs was used twice, once
labelled as the number of active object indices.
---
 source/data_model/cxx/source/validate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 74806a3..4cbc10b 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -1716,7 +1716,7 @@ namespace lue::data_model {
 
                     if (check_active_object_indices)
                     {
-                        auto const nr_objects2 = object_tracker.active_object_id().nr_ids();
+                        auto const nr_objects2 = object_tracker.active_object_index().nr_indices();
 
                         if (nr_active_sets != nr_objects2)
                         {
-- 
2.43.0


From 17839f4343aae14caeee86813390c31afaebcd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 10/33] fix: report active object IDs and indices that differ
 in number

Validation of an object tracker did not compare the number of active
object indices with the number of active object IDs. Validating a
different_shape::constant_shape value of such an object tracker failed an
assertion or read beyond the end of the smaller collection.
---
 source/data_model/cxx/source/validate.cpp | 35 ++++++++++++++++++-----
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/source/data_model/cxx/source/validate.cpp b/source/data_model/cxx/source/validate.cpp
index 4cbc10b..31ab3cf 100644
--- a/source/data_model/cxx/source/validate.cpp
+++ b/source/data_model/cxx/source/validate.cpp
@@ -351,13 +351,21 @@ namespace lue::data_model {
             active_set_idxs.push_back(active_object_id.nr_ids());
             auto begin_idx = active_set_idxs[0];
 
-            // TODO(KDJ) This happens when the active object idxs are empty. In
-            // that case, validation of the object tracker succeeded, because
-            // it doesn't now that this collection mustn't be empty, because
-            // it doesn't know it is required. It is required in the case of
-            // different_shape::constant_shape::Value. Not sure how to fix
-            // this conveniently yet.
-            assert(active_object_ids.size() == active_object_idxs.size());
+            // The active object indices are required here. The validation of
+            // the object tracker doesn't know that, and accepts that they
+            // are missing.
+            if (active_object_idxs.size() != active_object_ids.size())
+            {
+                issues.add_error(
+                    active_object_index.id(),
+                    std::format(
+                        "Number of active object indices does not equal "
+                        "the number of active object IDs ({} != {})",
+                        active_object_idxs.size(),
+                        active_object_ids.size()));
+
+                return;
+            }
 
             for (std::size_t i = 1; i < active_set_idxs.size(); ++i)
             {
@@ -717,6 +725,19 @@ namespace lue::data_model {
         validate_active_object_idxs(
             active_set_index.id(), active_set_idxs, active_object_index.id(), active_object_idxs, issues);
 
+        // If indices of active objects are stored, there must be one for each
+        // ID of an active object
+        if (!active_object_idxs.empty() && active_object_idxs.size() != active_object_ids.size())
+        {
+            issues.add_error(
+                active_object_index.id(),
+                std::format(
+                    "Number of active object indices does not equal "
+                    "the number of active object IDs ({} != {})",
+                    active_object_idxs.size(),
+                    active_object_ids.size()));
+        }
+
         // If the collection of static IDs is not empty, all of the active
         // IDs must also be part of the collection of static IDs
         if (!ids.empty())
-- 
2.43.0


From 37e5e2010bc3ee080832dddbd6423c77ac393148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 11/33] fix: read arrays of 16 bit integers from Python

---
 source/data_model/python/source/core/array.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 3da2526..d54023a 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -280,6 +280,14 @@ namespace lue::data_model {
             {
                 result = create_array<int8_t>(slice_shape);
             }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+            {
+                result = create_array<uint16_t>(slice_shape);
+            }
+            else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+            {
+                result = create_array<int16_t>(slice_shape);
+            }
             else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
             {
                 result = create_array<uint32_t>(slice_shape);
@@ -346,6 +354,14 @@ namespace lue::data_model {
         {
             result = create_scalar<int8_t>(array, hyperslab);
         }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT16})
+        {
+            result = create_scalar<uint16_t>(array, hyperslab);
+        }
+        else if (datatype == hdf5::Datatype{H5T_NATIVE_INT16})
+        {
+            result = create_scalar<int16_t>(array, hyperslab);
+        }
         else if (datatype == hdf5::Datatype{H5T_NATIVE_UINT32})
         {
             result = create_scalar<uint32_t>(array, hyperslab);
-- 
2.43.0


From 7483eb57b6821bf4ef6a2efe25d813ec598d9821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 12/33] fix: compare the number of assigned values with the
 indexed item

---
 .../data_model/python/source/core/array.cpp   | 31 +++++--------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index d54023a..e82ce27 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -466,17 +466,6 @@ namespace lue::data_model {
     }
 
 
-    template<typename T>
-    void write_to_array(Array& array, hdf5::Hyperslab const& hyperslab, T const* values)
-    {
-        verify_write<T>(array, hyperslab);
-
-        // Write source array into hyperslab target array
-        hdf5::Datatype memory_datatype{hdf5::NativeDatatypeTraits<T>::type_id()};
-        dynamic_cast<hdf5::Dataset&>(array).write(memory_datatype, hyperslab, values);
-    }
-
-
     template<typename T>
     void write_to_array(
         Array& array,
@@ -570,8 +559,14 @@ namespace lue::data_model {
 
 
     template<typename T>
-    void set_item(Array& array, std::int64_t const index, T const* values)
+    void set_item(
+        Array& array,
+        std::int64_t const index,
+        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
     {
+        hdf5::Shape const sizes(values.shape(), values.shape() + values.ndim());
+        auto const memory_dataspace = hdf5::create_dataspace(sizes);
+
         hdf5::Shape const shape{array.shape()};
         hdf5::Hyperslab hyperslab{shape};
         hdf5::Shape slice_shape{shape};
@@ -579,17 +574,7 @@ namespace lue::data_model {
 
         update_hyperslab_by_index(0, index, shape, hyperslab, slice_shape, nr_erased_dimensions);
 
-        write_to_array(array, hyperslab, values);
-    }
-
-
-    template<typename T>
-    void set_item(
-        Array& array,
-        std::int64_t const index,
-        py::array_t<T, py::array::c_style /* | py::array::forcecast */>& values)
-    {
-        set_item(array, index, static_cast<T const*>(values.request().ptr));
+        write_to_array(array, memory_dataspace, hyperslab, static_cast<T const*>(values.request().ptr));
     }
 
 
-- 
2.43.0


From 58012cf3916225d8de52a2a4f46d34125a0cfec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:15 +0000
Subject: [PATCH 13/33] fix: refuse Python integers that do not fit before
 filling an array

---
 source/data_model/python/source/core/array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index e82ce27..22aac80 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -789,7 +789,7 @@ namespace lue::data_model {
             .def(
                 "__setitem__",
                 [](Array& array, std::int64_t const index, py::int_ const& value) -> void
-                { set_item(array, index, std::int64_t{value}); })
+                { set_item(array, index, value.cast<std::int64_t>()); })
 
             .def(
                 "__setitem__",
@@ -806,7 +806,7 @@ namespace lue::data_model {
             .def(
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::int_ const& value) -> void
-                { set_item(array, slice, std::int64_t{value}); })
+                { set_item(array, slice, value.cast<std::int64_t>()); })
 
             .def(
                 "__setitem__",
-- 
2.43.0


From b770cd465491c54b3f7c245e7ea7288cce1e8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 14/33] fix: reclaim the memory of the strings that are read,
 only

---
 source/data_model/python/source/core/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 22aac80..468bee0 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -202,7 +202,8 @@ namespace lue::data_model {
 
             // Object to scope the array of arrays allocated by the next read. The values_read
             // sub-arrays will be freed.
-            lue::hdf5::VLenMemory vlen{memory_datatype, array.dataspace(), values_read.get()};
+            lue::hdf5::VLenMemory vlen{
+                memory_datatype, hdf5::create_dataspace(slice_shape), values_read.get()};
 
             array.read(hyperslab, values_read.get());
 
-- 
2.43.0


From ab9863830d3349654cebb03f28051392cb6ca199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 15/33] fix: place strings in the slots of the NumPy array they
 are read into

---
 .../data_model/python/source/core/array.cpp   | 36 ++++++++-----------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 468bee0..67e591e 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -190,7 +190,11 @@ namespace lue::data_model {
             // must contain fixed length Unicode strings (measured in UCS4 encoded code
             // points). Shorter strings are padded with nulls.
 
-            assert(slice_shape.size() == 1);
+            if (slice_shape.size() != 1)
+            {
+                throw std::runtime_error("Currently, only 1-D string arrays are supported");
+            }
+
             auto const nr_strings = slice_shape[0];
 
             // Read the strings in a data structure of our own
@@ -220,24 +224,15 @@ namespace lue::data_model {
                     std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
             }
 
-            // Number of bytes used to represent a single code point in a NumPy Unicode
-            // string, which uses UTF32 encoding (~= UCS4).
-            std::size_t const nr_bytes_per_code_point_utf32{4};
-
-            // Maximum number of code points per NumPy Unicode string. This happens when
-            // a single character is represented by a single byte on the HDF5 side (UTF8).
+            // Maximum number of code points per NumPy Unicode string, which uses UTF32
+            // encoding (~= UCS4). This happens when a single character is represented by a
+            // single byte on the HDF5 side (UTF8).
             std::size_t const max_nr_code_points{max_nr_bytes_per_string_utf8};
 
-            // Maximum number of bytes per NumPy Unicode string
-            std::size_t const max_nr_bytes_per_string_utf32{
-                max_nr_code_points * nr_bytes_per_code_point_utf32};
-
             // Buffer for all Unicode strings, back to back
-            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_bytes_per_string_utf32)};
+            auto py_buffer_utf32{std::make_unique<Py_UCS4[]>(nr_strings * max_nr_code_points)};
             std::fill(
-                py_buffer_utf32.get(),
-                py_buffer_utf32.get() + nr_strings * max_nr_bytes_per_string_utf32,
-                '\0');
+                py_buffer_utf32.get(), py_buffer_utf32.get() + nr_strings * max_nr_code_points, '\0');
 
             {
                 py::str py_string{};
@@ -254,21 +249,20 @@ namespace lue::data_model {
                     }
 
                     // Copy Unicode string into the right slot in the Numpy array
-                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_bytes_per_string_utf32, 0) ==
-                        nullptr)
+                    if (PyUnicode_AsUCS4(py_string.ptr(), buffer_ptr, max_nr_code_points, 0) == nullptr)
                     {
                         throw py::error_already_set();
                     }
 
-                    buffer_ptr += max_nr_bytes_per_string_utf32;
+                    buffer_ptr += max_nr_code_points;
                 }
             }
 
-            py::capsule free_when_done(
-                py_buffer_utf32.get(), [](void* buffer) { delete[] static_cast<Py_UCS4*>(buffer); });
-
             py::dtype dtype{"U" + std::to_string(max_nr_code_points)};
             hdf5::Shape shape{nr_strings};
+
+            py::capsule free_when_done(
+                py_buffer_utf32.get(), [](void* buffer) { delete[] static_cast<Py_UCS4*>(buffer); });
             result = py::array(dtype, shape, py_buffer_utf32.release(), free_when_done);
         }
         else
-- 
2.43.0


From 6f9441b0524ee05806566c219038ff219b1fc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:04 +0000
Subject: [PATCH 16/33] fix: write each assigned string to its own selected
 element

---
 .../data_model/python/source/core/array.cpp   | 27 ++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 67e591e..3a923cf 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -888,7 +888,15 @@ namespace lue::data_model {
                 "__setitem__",
                 [](Array& array, py::slice const& slice, py::array& values) -> void
                 {
-                    auto const info = values.request();
+                    // The strings must be stored back to back
+                    auto const strings{py::array::ensure(values, py::array::c_style)};
+
+                    if (!strings)
+                    {
+                        throw py::error_already_set();
+                    }
+
+                    auto const info = strings.request();
 
                     // Verify values are strings
                     // s : ascii chars or utf8 encoded unicode string
@@ -921,6 +929,15 @@ namespace lue::data_model {
 
                     auto const nr_strings = slice_shape[0];
 
+                    if (static_cast<hdf5::Shape::value_type>(info.size) != nr_strings)
+                    {
+                        throw std::runtime_error(
+                            std::format(
+                                "Number of strings to assign ({}) must equal size of selected slice ({})",
+                                info.size,
+                                nr_strings));
+                    }
+
                     // Copy strings to new buffer that is compatible with HDF5
                     // variable length strings
                     auto hdf5_buffer = std::make_unique<char*[]>(nr_strings);
@@ -962,7 +979,6 @@ namespace lue::data_model {
                         // Length in bytes of each individual string
                         std::size_t const nr_bytes_per_string_utf32 = info.itemsize;
 
-#ifndef NDEBUG
                         // Number of bytes used to represent a code point
                         std::size_t const nr_bytes_per_code_point_utf32 = 4;
                         assert(nr_bytes_per_string_utf32 % nr_bytes_per_code_point_utf32 == 0);
@@ -971,7 +987,6 @@ namespace lue::data_model {
                         std::size_t const nr_code_points =
                             nr_bytes_per_string_utf32 / nr_bytes_per_code_point_utf32;
                         assert(nr_code_points == std::stoul(info.format));
-#endif
 
                         // Buffer is a 1-D array with all strings back to back. The maximum
                         // length of each string is the same: nr_code_points. Shorter strings
@@ -1014,13 +1029,13 @@ namespace lue::data_model {
                                 auto hdf5_string = hdf5_buffer.get()[i];
                                 std::ranges::copy(string_utf8, hdf5_string);
                                 hdf5_string[string_utf8.size()] = '\0';
-                            }
 
-                            start_of_string_utf32 += nr_bytes_per_string_utf32;
+                                start_of_string_utf32 += nr_code_points;
+                            }
                         }
                     }
 
-                    array.write(hdf5_buffer.get());
+                    array.write(hyperslab, hdf5_buffer.get());
 
                     // TODO Make sure this happens also in case of errors
                     for (std::size_t i = 0; i < nr_strings; ++i)
-- 
2.43.0


From f59b9f2d7adef2ddd7f679176591bd0b4f410005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:06 +0000
Subject: [PATCH 17/33] fix: compare the valid cells of rasters, whatever their
 blocks

The offset of a block was passed column first to obtain the number of valid
cells, valid cells of partial blocks were assumed to be contiguous, and values
of the second band were read using the block shape of the first one.
---
 .../gdal/include/lue/gdal/raster.hpp           |  3 +++
 .../data_model/gdal/source/compare_rasters.cpp | 18 ++++++++++++------
 source/data_model/gdal/source/raster.cpp       | 10 ++++++++++
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index fc9a267..f5001cd 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -67,6 +67,9 @@ namespace lue::gdal {
 
                     auto read(void* buffer) -> void;
 
+                    auto read(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
+                        -> void;
+
                     auto write(void* buffer) -> void;
 
                     auto write(Offset const& offset, Shape const& shape, GDALDataType data_type, void* buffer)
diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7664110..7e65438 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -1,8 +1,10 @@
 #include "lue/gdal/compare_rasters.hpp"
 #include "lue/gdal/data_type.hpp"
 #include "lue/gdal/raster.hpp"
+#include "lue/gdal/type_traits.hpp"
 #include "lue/define.hpp"
 #include "lue/string.hpp"
+#include <algorithm>
 #include <cassert>
 #include <format>
 
@@ -63,9 +65,12 @@ namespace lue::gdal {
             };
 
 
-            // Read blocks of data and compare the values
+            // Read blocks of data and compare the values. The shape of the blocks is the one of the first
+            // band, but blocks don't extend beyond the raster. The natural blocks of both bands can differ.
             auto const shape{band1.shape()};
-            auto const block_shape{band1.block_shape()};
+            auto const natural_block_shape{band1.block_shape()};
+            Shape const block_shape{
+                std::min(natural_block_shape[0], shape[0]), std::min(natural_block_shape[1], shape[1])};
             Blocks const blocks{shape, block_shape};
 
             std::vector<Element> values1(nr_elements(block_shape));
@@ -78,12 +83,13 @@ namespace lue::gdal {
             {
                 for (gdal::Count block_x = 0; block_x < nr_blocks_x && !different_values_found; ++block_x)
                 {
-                    auto const nr_valid_cells = nr_elements(blocks.shape_in_valid_cells({block_x, block_y}));
+                    Shape const valid_shape = blocks.shape_in_valid_cells({block_y, block_x});
+                    Offset const offset{block_y * block_shape[0], block_x * block_shape[1]};
 
-                    band1.read_block({block_y, block_x}, values1.data());
-                    band2.read_block({block_y, block_x}, values2.data());
+                    band1.read(offset, valid_shape, data_type_v<Element>, values1.data());
+                    band2.read(offset, valid_shape, data_type_v<Element>, values2.data());
 
-                    bool values_are_equal = compare_elements(values1, values2, nr_valid_cells);
+                    bool values_are_equal = compare_elements(values1, values2, nr_elements(valid_shape));
 
                     if (!values_are_equal)
                     {
diff --git a/source/data_model/gdal/source/raster.cpp b/source/data_model/gdal/source/raster.cpp
index 118525f..d503ef3 100644
--- a/source/data_model/gdal/source/raster.cpp
+++ b/source/data_model/gdal/source/raster.cpp
@@ -58,6 +58,16 @@ namespace lue::gdal {
     }
 
 
+    /*!
+        @sa         gdal::read
+    */
+    auto Raster::Band::read(
+        Offset const& offset, Shape const& shape, GDALDataType const data_type, void* buffer) -> void
+    {
+        gdal::read(*_band_ptr, offset, shape, data_type, buffer);
+    }
+
+
     /*!
         @sa         gdal::write
     */
-- 
2.43.0


From 0877a1e68117ce3a963a108c75eae291cac35764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:33 +0000
Subject: [PATCH 18/33] fix: report failures of GDAL to get or set the geo
 transform

---
 source/data_model/gdal/source/dataset.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/data_model/gdal/source/dataset.cpp b/source/data_model/gdal/source/dataset.cpp
index c952766..8655abf 100644
--- a/source/data_model/gdal/source/dataset.cpp
+++ b/source/data_model/gdal/source/dataset.cpp
@@ -312,6 +312,7 @@ namespace lue::gdal {
                     (row, col indices) to georeferenced coordinates (projected or geographic
                     coordinates)
         @return     Collection of six coefficients
+        @exception  std::runtime_error In case the transformation information cannot be obtained
         @sa         set_geo_transform
 
         Index | Meaning
@@ -326,7 +327,12 @@ namespace lue::gdal {
     auto geo_transform(GDALDataset& dataset) -> GeoTransform
     {
         GeoTransform result{};
-        dataset.GetGeoTransform(result.data());
+        CPLErr const status = dataset.GetGeoTransform(result.data());
+
+        if (status != CE_None)
+        {
+            throw std::runtime_error("Cannot get the geo transform of a raster");
+        }
 
         if (!up_is_north(result))
         {
@@ -344,13 +350,19 @@ namespace lue::gdal {
 
     /*!
         @brief      Set the transformation information
+        @exception  std::runtime_error In case the transformation information cannot be set
         @sa         geo_transform
     */
     auto set_geo_transform(GDALDataset& dataset, GeoTransform const& geo_transform) -> void
     {
         // For some reason, GDAL wants a non-const pointer...
         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
-        dataset.SetGeoTransform(const_cast<Coordinate*>(geo_transform.data()));
+        CPLErr const status = dataset.SetGeoTransform(const_cast<Coordinate*>(geo_transform.data()));
+
+        if (status != CE_None)
+        {
+            throw std::runtime_error("Cannot set the geo transform of a raster");
+        }
     }
 
 }  // namespace lue::gdal
-- 
2.43.0


From a644aa041c0a431ba5ada80fd96acce8303933f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:53 +0000
Subject: [PATCH 19/33] fix: return whether setting the no-data value of a band
 succeeded

---
 source/data_model/gdal/include/lue/gdal/raster.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/gdal/include/lue/gdal/raster.hpp b/source/data_model/gdal/include/lue/gdal/raster.hpp
index f5001cd..b730472 100644
--- a/source/data_model/gdal/include/lue/gdal/raster.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster.hpp
@@ -55,9 +55,9 @@ namespace lue::gdal {
                         @sa         gdal::set_no_data_value
                     */
                     template<typename Element>
-                    auto set_no_data_value(Element const value) -> void
+                    auto set_no_data_value(Element const value) -> bool
                     {
-                        gdal::set_no_data_value<Element>(*_band_ptr, value);
+                        return gdal::set_no_data_value<Element>(*_band_ptr, value);
                     }
 
 
-- 
2.43.0


From 719772da8182f4d6938b5f790c8ffc29428739de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:00 +0000
Subject: [PATCH 20/33] fix: compare the values of raster bands using the data
 type of the band

The data type of the first band was used for all bands, so differences between bands with another, wider, data type were lost.
---
 source/data_model/gdal/source/compare_rasters.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/data_model/gdal/source/compare_rasters.cpp b/source/data_model/gdal/source/compare_rasters.cpp
index 7e65438..65b4381 100644
--- a/source/data_model/gdal/source/compare_rasters.cpp
+++ b/source/data_model/gdal/source/compare_rasters.cpp
@@ -270,7 +270,10 @@ namespace lue::gdal {
                 auto band1 = raster1.band(band_nr);
                 auto band2 = raster2.band(band_nr);
 
-                switch (data_type1)
+                // The bands of a raster can have different data types
+                auto const band_data_type = band1.data_type();
+
+                switch (band_data_type)
                 {
 #if LUE_GDAL_SUPPORTS_8BIT_UNSIGNED_INTEGERS
                     case GDT_UInt8:
@@ -333,7 +336,7 @@ namespace lue::gdal {
                     default:
                     {
                         differences.emplace_back(
-                            std::format("Unsupported GDAL data type: {}", as_string(data_type1)));
+                            std::format("Unsupported GDAL data type: {}", as_string(band_data_type)));
                     }
                 }
             }
-- 
2.43.0


From f750c9a16addf6e45a43b5aec95bd4c78a30e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:00 +0000
Subject: [PATCH 21/33] fix: use the 64-bit no-data functions regardless of the
 order of the includes

The header tests a macro that is defined in a header it didn't include. In compare_rasters.cpp the no-data values of 64-bit integers passed through a double, and different values could compare equal.
---
 source/data_model/gdal/include/lue/gdal/raster_band.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/data_model/gdal/include/lue/gdal/raster_band.hpp b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
index cd4f050..f78615b 100644
--- a/source/data_model/gdal/include/lue/gdal/raster_band.hpp
+++ b/source/data_model/gdal/include/lue/gdal/raster_band.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include "lue/gdal/configure.hpp"
 #include "lue/gdal/define.hpp"
 #include "lue/gdal/export.hpp"
 #include <gdal_priv.h>
-- 
2.43.0


From f27bdc8f2d61607a33f8806b220eff4c59e1ae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:25 +0000
Subject: [PATCH 22/33] fix: reading strings that have not been written yet
 from Python

---
 source/data_model/python/source/core/array.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/data_model/python/source/core/array.cpp b/source/data_model/python/source/core/array.cpp
index 3a923cf..4cf87f8 100644
--- a/source/data_model/python/source/core/array.cpp
+++ b/source/data_model/python/source/core/array.cpp
@@ -214,14 +214,17 @@ namespace lue::data_model {
             // We now have variable length UTF8 encoded Unicode strings in values_read. These
             // must end up as fixed length Unicode strings in the Numpy array.
 
+            // Strings which have not been written yet are read as null pointers
+            auto const string_read = [&values_read](std::size_t const i) -> char const*
+            { return values_read[i] != nullptr ? values_read[i] : ""; };
+
             // Maximum number of bytes used to represent a UTF8 encoded string in HDF5
             std::size_t max_nr_bytes_per_string_utf8{0};
 
             for (size_t i = 0; i < nr_strings; ++i)
             {
-                assert(values_read[i][strlen(values_read[i])] == '\0');
                 max_nr_bytes_per_string_utf8 =
-                    std::max(max_nr_bytes_per_string_utf8, std::strlen(values_read[i]));
+                    std::max(max_nr_bytes_per_string_utf8, std::strlen(string_read(i)));
             }
 
             // Maximum number of code points per NumPy Unicode string, which uses UTF32
@@ -241,7 +244,7 @@ namespace lue::data_model {
                 for (std::size_t i = 0; i < nr_strings; ++i)
                 {
                     // Decode UTF8 string as read from LUE array
-                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(values_read[i]));
+                    py_string = py::reinterpret_steal<py::str>(PyUnicode_FromString(string_read(i)));
 
                     if (!py_string)
                     {
-- 
2.43.0


From 72701bc43b06f2090778b5822dd895fbed6e3e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:24 +0000
Subject: [PATCH 23/33] fix: keep alive the object in which attributes, items
 and new properties are found (Python)

---
 source/data_model/python/source/dataset.cpp             | 2 +-
 source/data_model/python/source/object/phenomenon.cpp   | 2 +-
 source/data_model/python/source/object/property_set.cpp | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/data_model/python/source/dataset.cpp b/source/data_model/python/source/dataset.cpp
index ec52030..b4ed34f 100644
--- a/source/data_model/python/source/dataset.cpp
+++ b/source/data_model/python/source/dataset.cpp
@@ -150,7 +150,7 @@ namespace lue {
 
                         return result;
                     },
-                    py::return_value_policy::reference_internal)
+                    py::keep_alive<0, 1>())
 
                 ;
 
diff --git a/source/data_model/python/source/object/phenomenon.cpp b/source/data_model/python/source/object/phenomenon.cpp
index 7e8576c..b01b4d2 100644
--- a/source/data_model/python/source/object/phenomenon.cpp
+++ b/source/data_model/python/source/object/phenomenon.cpp
@@ -251,7 +251,7 @@ namespace lue {
 
                         return py::cast(&property_sets[property_set_name]);
                     },
-                    py::return_value_policy::reference_internal)
+                    py::keep_alive<0, 1>())
 
                 .def(
                     "add_property_set",
diff --git a/source/data_model/python/source/object/property_set.cpp b/source/data_model/python/source/object/property_set.cpp
index 25ff653..d539819 100644
--- a/source/data_model/python/source/object/property_set.cpp
+++ b/source/data_model/python/source/object/property_set.cpp
@@ -326,7 +326,7 @@ namespace lue {
                     "__getitem__",
                     [](Properties& properties, std::string const& name)
                     { return property_reference(properties, name); },
-                    py::return_value_policy::reference_internal)
+                    py::keep_alive<0, 1>())
 
                 .def_property_readonly(
                     "names",
@@ -482,7 +482,7 @@ namespace lue {
 
                         return property_reference(property_set.properties(), property_name);
                     },
-                    py::return_value_policy::reference_internal)
+                    py::keep_alive<0, 1>())
 
                 .def(
                     "add_property",
@@ -600,7 +600,7 @@ namespace lue {
         *value_variability* passed in
     :raises RuntimeError: In case the property cannot be created
 )",
-                    py::return_value_policy::reference_internal)
+                    py::keep_alive<0, 1>())
 
 
                 .def(
@@ -728,7 +728,7 @@ namespace lue {
         *shape_per_object* and *shape_variability* passed in
     :raises RuntimeError: In case the property cannot be created
 )",
-                    py::return_value_policy::reference_internal)
+                    py::keep_alive<0, 1>())
 
                 ;
         }
-- 
2.43.0


From d25e7ac73fa0af4a6c00036442ff44ef7a606823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 24/33] fix: return the phenomenon itself, instead of a copy,
 as attribute of a universe (Python)

---
 source/data_model/python/source/object/universe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/object/universe.cpp b/source/data_model/python/source/object/universe.cpp
index 5f6d701..3e1ccf6 100644
--- a/source/data_model/python/source/object/universe.cpp
+++ b/source/data_model/python/source/object/universe.cpp
@@ -131,9 +131,9 @@ namespace lue {
                                 std::format("Universe does not contain phenomenon '{}'", phenomenon_name));
                         }
 
-                        return py::cast(universe.phenomena()[phenomenon_name]);
+                        return py::cast(&universe.phenomena()[phenomenon_name]);
                     },
-                    py::return_value_policy::reference_internal)
+                    py::keep_alive<0, 1>())
 
                 ;
         }
-- 
2.43.0


From 5982b8795f6680d39e1fe3056f2acfae4a1206be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:04 +0000
Subject: [PATCH 25/33] fix: a time discretization property that is itself
 discretized in space does not make a raster

---
 source/data_model/hl/source/raster_view.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 6908d61..068be51 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -661,7 +661,7 @@ namespace lue::data_model {
                             auto const& value{discretization_property.value()};
 
                             if (!discretization_property.time_is_discretized() &&
-                                !discretization_property.time_is_discretized() && value.nr_arrays() == 1 &&
+                                !discretization_property.space_is_discretized() && value.nr_arrays() == 1 &&
                                 value.array_shape() == hdf5::Shape{1} &&
                                 value.file_datatype() ==
                                     hdf5::Datatype{
-- 
2.43.0


From 541b1b785726905b043b1b9bf32e9422d7cb79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:04 +0000
Subject: [PATCH 26/33] fix: track the object that exists already when creating
 a variable raster view

---
 source/data_model/hl/source/raster_view.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 068be51..e29bca8 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -730,6 +730,11 @@ namespace lue::data_model {
                 phenomenon.object_id().expand(1);
                 phenomenon.object_id().write(0, &object_id);
             }
+            else
+            {
+                // The object tracker must refer to the existing object
+                phenomenon.object_id().read(0, &object_id);
+            }
 
             TimeConfiguration time_configuration{TimeDomainItemType::box};
             SpaceConfiguration space_configuration{Mobility::stationary, SpaceDomainItemType::box};
-- 
2.43.0


From b95aa07425b7cf705990f9632d5817de18ade02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:30 +0000
Subject: [PATCH 27/33] fix: refuse grid shapes without exactly two extents
 when creating a raster view

---
 source/data_model/hl/source/raster_view.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index e29bca8..56eb1ae 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -385,6 +385,12 @@ namespace lue::data_model {
         {
             // FIXME Refactor with variable::create_raster_view
 
+            if (grid_shape.size() != 2)
+            {
+                throw std::runtime_error(
+                    std::format("Grid shape must contain 2 extents, but contains {}", grid_shape.size()));
+            }
+
             Dataset& dataset{*dataset_ptr};
 
             // Add one phenomenon. It is OK if the phenomenon already exists.
@@ -716,6 +722,12 @@ namespace lue::data_model {
         {
             // FIXME Refactor with constant::create_raster_view
 
+            if (grid_shape.size() != 2)
+            {
+                throw std::runtime_error(
+                    std::format("Grid shape must contain 2 extents, but contains {}", grid_shape.size()));
+            }
+
             Dataset& dataset{*dataset_ptr};
 
             // Add one phenomenon. It is OK if the phenomenon already exists.
-- 
2.43.0


From 7917e361304ee10b04c62cbbc6331e8d4da2b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 28/33] fix: a property-set whose space box is not a
 two-dimensional box of doubles does not make a raster

---
 source/data_model/hl/source/raster_view.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/data_model/hl/source/raster_view.cpp b/source/data_model/hl/source/raster_view.cpp
index 56eb1ae..0e8f6b6 100644
--- a/source/data_model/hl/source/raster_view.cpp
+++ b/source/data_model/hl/source/raster_view.cpp
@@ -161,7 +161,9 @@ namespace lue::data_model {
                         // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
                         auto space_box = const_cast<SpaceDomain&>(space_domain).value<StationarySpaceBox>();
 
-                        if (space_box.nr_boxes() == 1)
+                        if (space_box.nr_boxes() == 1 && space_box.array_shape() == hdf5::Shape{4} &&
+                            space_box.file_datatype() ==
+                                hdf5::Datatype{hdf5::StandardDatatypeTraits<double>::type_id()})
                         {
                             space_domain_ok = true;
                         }
-- 
2.43.0


From ce1bdb060a3cef404b9a08e613289563f88cccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 29/33] fix: raise an error when the results of an experiment
 cannot be written

---
 source/quality_assurance/cxx/source/scalability/io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/quality_assurance/cxx/source/scalability/io.cpp b/source/quality_assurance/cxx/source/scalability/io.cpp
index bed340c..07c6542 100644
--- a/source/quality_assurance/cxx/source/scalability/io.cpp
+++ b/source/quality_assurance/cxx/source/scalability/io.cpp
@@ -100,6 +100,12 @@ namespace lue::qa {
         }
 
         stream << to_json(experiment);
+        stream.close();
+
+        if (!stream)
+        {
+            throw std::runtime_error("Results could not be saved to file " + pathname);
+        }
     }
 
 }  // namespace lue::qa
-- 
2.43.0


From 59a19c8894b0f3c038e54de4db5df296d78764fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 30/33] fix: keep the description and arguments of an
 experiment when writing its settings

---
 .../command/scalability/experiment/experiment.py          | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
index 8fb357b..f03ad12 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/experiment.py
@@ -8,6 +8,12 @@ class Arguments(object):
         )
         self.options = json_dict["options"] if "options" in json_dict else {}
 
+    def to_json(self):
+        return {
+            "positionals": self.positionals,
+            "options": self.options,
+        }
+
     @property
     def to_list(self):
         result = []
@@ -45,8 +51,10 @@ class Experiment(object):
 
     def to_json(self):
         result = {
+            "description": self.description,
             "command_pathname": self.command_pathname,
             "command_arguments": self.command_arguments,
+            "arguments": self.arguments.to_json(),
             # "nr_time_steps": self.nr_time_steps,
         }
 
-- 
2.43.0


From 7492a9de31e229de679f5186a4441857209123f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:49 +0000
Subject: [PATCH 31/33] fix: refuse unknown kinds of schedulers when reading
 the settings of a cluster

---
 .../scalability/command/scalability/experiment/cluster.py       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/quality_assurance/scalability/command/scalability/experiment/cluster.py b/source/quality_assurance/scalability/command/scalability/experiment/cluster.py
index c465cab..e717741 100644
--- a/source/quality_assurance/scalability/command/scalability/experiment/cluster.py
+++ b/source/quality_assurance/scalability/command/scalability/experiment/cluster.py
@@ -231,6 +231,8 @@ class Cluster(object):
             self.scheduler = ShellScheduler(scheduler_json)
         elif scheduler_kind == "slurm":
             self.scheduler = SlurmScheduler(scheduler_json)
+        else:
+            raise RuntimeError("Unknown kind of scheduler: {}".format(scheduler_kind))
 
         self.nr_cluster_nodes = data["nr_cluster_nodes"]
         self.cluster_node = ClusterNode(data["cluster_node"])
-- 
2.43.0


From bcf4a17e28b15ba000a2b9a6d04c11c22f896591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:47 +0000
Subject: [PATCH 32/33] fix: sort durations of weak scalability experiments by
 number of workers

The exported numbers of workers and efficiencies are sorted by the number
of workers, while the durations next to them were in the order in which
the benchmarks were performed.
---
 .../scalability/command/scalability/query/export.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/quality_assurance/scalability/command/scalability/query/export.py b/source/quality_assurance/scalability/command/scalability/query/export.py
index 2789dcf..75d2632 100644
--- a/source/quality_assurance/scalability/command/scalability/query/export.py
+++ b/source/quality_assurance/scalability/command/scalability/query/export.py
@@ -153,7 +153,7 @@ def export_duration_weak_scalability(dataset: ldm.Dataset, csv_writer) -> None:
         )
 
         lue_scaling = dataset.benchmark.scaling
-        duration = measurement_property_set.duration.value[:]
+        duration = measurement_property_set.duration.value[:][sort_idxs]
         relative_efficiency = lue_scaling.relative_efficiency.value[:][sort_idxs]
 
         for idx, nr_workers_ in enumerate(nr_workers):
-- 
2.43.0


From 9abeb13065a96269c13be8d7a490977d7978d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:35 +0000
Subject: [PATCH 33/33] fix: read identifiers and shapes from Python in the
 order of their elements

Value.expand of values of different shapes passed the memory of the given
arrays to the library without regard for their strides. Slices and transposed
arrays resulted in object arrays for other objects, with other shapes, and in
reading beyond the memory of arrays with negative strides.
---
 source/data_model/python/source/different_shape/value.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/data_model/python/source/different_shape/value.cpp b/source/data_model/python/source/different_shape/value.cpp
index 07206d3..e49e4ea 100644
--- a/source/data_model/python/source/different_shape/value.cpp
+++ b/source/data_model/python/source/different_shape/value.cpp
@@ -29,8 +29,10 @@ namespace lue {
                     .def(
                         "expand",
                         [](Value& value,
-                           py::array_t<ID> const& ids,
-                           py::array_t<hdf5::Shape::value_type> const& shapes) -> Value&
+                           py::array_t<ID, py::array::c_style | py::array::forcecast> const& ids,
+                           py::array_t<
+                               hdf5::Shape::value_type,
+                               py::array::c_style | py::array::forcecast> const& shapes) -> Value&
                         {
                             if (ids.ndim() != 1)
                             {
-- 
2.43.0

