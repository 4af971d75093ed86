From 1427075e436665876b25180c054f2a4bc7cd501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/81] fix: refuse to write through an nd::array without write
 permission passed as dst

nd::callable::call with a "dst" keyword (and therefore nd::array::assign,
vals() =, +=, ...) wrote into arrays whose flags do not include write access,
including immutable ones. Check the flag before running the kernel.
---
 src/dynd/array.cpp                   | 10 +++++++++-
 src/dynd/callables/base_callable.cpp |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 8bd213a..963271b 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -248,13 +248,21 @@ nd::array nd::array::eval_copy(uint32_t access_flags) const {
 
   const ndt::type &current_tp = get_type();
   const ndt::type &dt = current_tp.get_canonical_type();
-  array result = nd::empty(dt, access_flags);
+  array result = nd::empty(dt, access_flags | write_access_flag);
   if (dt.get_id() == fixed_dim_id) {
     // Reorder strides of output strided dimensions in a KEEPORDER fashion
     dt.extended<ndt::fixed_dim_type>()->reorder_default_constructed_strides(result.get()->metadata(), get_type(),
                                                                             get()->metadata());
   }
   result.assign(*this);
+  if ((access_flags & write_access_flag) == 0) {
+    // Now that the data is in place, hand it out with the requested permissions only
+    array ro = make_array(dt, const_cast<char *>(result.cdata()), result, access_flags);
+    if (dt.get_arrmeta_size() > 0) {
+      dt->arrmeta_copy_construct(ro->metadata(), result->metadata(), memory_block());
+    }
+    return ro;
+  }
   return result;
 }
 
diff --git a/src/dynd/callables/base_callable.cpp b/src/dynd/callables/base_callable.cpp
index 4d42c42..8058447 100644
--- a/src/dynd/callables/base_callable.cpp
+++ b/src/dynd/callables/base_callable.cpp
@@ -73,6 +73,11 @@ void nd::base_callable::call(const ndt::type &dst_tp, const char *dst_arrmeta, a
   kernel_builder kb(cg.get());
   kb(kernel_request_call, nullptr, dst_arrmeta, nsrc, src_arrmeta);
 
+  // The caller supplied dst, so its access permissions must allow writing to it
+  if (!(dst->get_flags() & write_access_flag)) {
+    throw std::runtime_error("tried to write to a dynd array that is not writable");
+  }
+
   kernel_call_t fn = kb.get()->get_function<kernel_call_t>();
   fn(kb.get(), dst, src);
 }
-- 
2.43.0


From ba8bc0290c5752e8d4d348507163a3346bc01e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 02/81] fix: permute over several separate groups of axes, and
 past a leading fixed dimension

---
 src/dynd/array.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 963271b..922311c 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -457,7 +457,7 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
       // No more perm dimensions left, leave type as is
       out_transformed_tp = tp;
     } else {
-      if (tp.get_base_id() == dim_kind_id) {
+      if (tp.get_id() == fixed_dim_id || tp.get_base_id() == dim_kind_id) {
         ++pdd->i;
       }
       tp.extended()->transform_child_types(&permute_type_dims, arrmeta_offset, extra, out_transformed_tp,
@@ -487,9 +487,12 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
     // If there are more permutation axes left, process the subtype
     if (max_i < pdd->ndim - 1) {
       pdd->i = max_i + 1;
-      tp.extended()->transform_child_types(&permute_type_dims,
-                                           arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, subtp,
-                                           out_was_transformed);
+      ndt::type transformed_subtp;
+      bool subtp_was_transformed = false;
+      permute_type_dims(subtp, arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, transformed_subtp,
+                        subtp_was_transformed);
+      subtp = transformed_subtp;
+      pdd->i = i;
     }
     // Apply the permutation
     dimvector shape(perm_ndim), permuted_shape(perm_ndim);
-- 
2.43.0


From 690d285c36528d7aae7a85524fe6efca46401ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/81] fix: permute, rotate, transpose, new_axis, reshape and
 view_scalars of arrays without write permission

---
 src/dynd/array.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 922311c..b3180ae 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -541,7 +541,8 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
   pdd.arrmeta = res.get()->metadata();
   permute_type_dims(get_type(), 0, &pdd, transformed_tp, was_transformed);
 
-  nd::array second_res = make_array(transformed_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+  nd::array second_res = make_array(transformed_tp, const_cast<char *>(cdata()),
+                                    get_owner() ? get_owner() : *this, get_flags());
   transformed_tp.extended()->arrmeta_copy_construct(second_res->metadata(), res->metadata(), memory_block());
 
   return second_res;
@@ -638,7 +639,8 @@ nd::array nd::array::new_axis(intptr_t i, intptr_t new_ndim) const {
   ndt::type dst_tp = src_tp.with_new_axis(i, new_ndim);
 
   // This is taken from view_concrete in view.cpp
-  nd::array res = make_array(dst_tp, data(), get_owner() ? get_data_memblock() : *this, get_flags());
+  nd::array res = make_array(dst_tp, const_cast<char *>(cdata()),
+                             get_owner() ? get_data_memblock() : *this, get_flags());
 
   char *src_arrmeta = const_cast<char *>(get()->metadata());
   char *dst_arrmeta = res.get()->metadata();
@@ -727,7 +729,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
       }
       // Create the result array, adjusting the type if the data isn't aligned
       // correctly
-      char *data_ptr = data();
+      char *data_ptr = const_cast<char *>(cdata());
       ndt::type result_tp;
       intptr_t dim_size = nbytes / scalar_tp.get_data_size();
       if ((((uintptr_t)data_ptr) & (scalar_tp.get_data_alignment() - 1)) == 0) {
@@ -736,7 +738,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
         throw std::runtime_error("creating an unaligned type");
         //        result_tp = ndt::make_fixed_dim(dim_size, make_unaligned(scalar_tp));
       }
-      array result = make_array(result_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+      array result = make_array(result_tp, data_ptr, get_owner() ? get_owner() : *this, get_flags());
       // The result has one strided ndarray field
       fixed_dim_type_arrmeta *result_md = reinterpret_cast<fixed_dim_type_arrmeta *>(result.get()->metadata());
       result_md->dim_size = dim_size;
@@ -893,8 +895,8 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     shape_copy[i] = shape(i).as<intptr_t>();
   }
 
-  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(), a.data(), a,
-                                      NULL);
+  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(),
+                                      const_cast<char *>(a.cdata()), a, NULL);
 }
 
 nd::array nd::memmap(const std::string &DYND_UNUSED(filename), intptr_t DYND_UNUSED(begin), intptr_t DYND_UNUSED(end),
-- 
2.43.0


From 76329cd1c4da8fee68c7204bdbc5c5fa347355a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 04/81] fix: elementwise broadcasting of size-one and missing
 dimensions followed by further dimensions

---
 .../dynd/callables/base_elwise_callable.hpp   |  9 +++------
 include/dynd/callables/elwise_callable.hpp    | 16 +++++++++++----
 .../callables/elwise_dispatch_callable.hpp    | 20 +++++++++----------
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..fe1822c 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -27,8 +27,8 @@ namespace nd {
       };
 
       struct data_type {
-        std::array<bool, N> arg_broadcast;
-        std::array<bool, N> arg_var;
+        std::array<bool, N> arg_broadcast; // the argument does not have this dimension
+        std::array<bool, N> arg_var;       // the argument has this dimension, and it is a var_dim
         intptr_t res_alignment;
         size_t ndim;
         bool res_ignore;
@@ -63,15 +63,12 @@ namespace nd {
             arg_element_tp[i] = arg_tp[i];
           } else {
             arg_size[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_dim_size();
-            if (arg_size[i] == 1) {
-              data.arg_broadcast[i] = true;
-            }
             arg_element_tp[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_element_type();
           }
         }
 
         for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
+          data.arg_var[i] = !data.arg_broadcast[i] && arg_tp[i].get_id() == var_dim_id;
         }
 
         intptr_t res_size;
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..7b1036d 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -55,7 +55,12 @@ namespace nd {
                                                        const char *const *src_arrmeta) {
           size_t size;
           if (res_broadcast) {
-            size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
+            size = 1;
+            for (size_t i = 0; i < N && size == 1; ++i) {
+              if (!arg_broadcast[i]) {
+                size = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+              }
+            }
           } else {
             size = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->dim_size;
           }
@@ -77,7 +82,8 @@ namespace nd {
               src_stride[i] = 0;
               child_src_arrmeta[i] = src_arrmeta[i];
             } else {
-              src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+              const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
+              src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
               child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
           }
@@ -125,9 +131,10 @@ namespace nd {
                 src_stride[i] = 0;
                 child_src_arrmeta[i] = src_arrmeta[i];
               } else {
+                const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
                 src_offset[i] = 0;
-                src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
+                src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
@@ -191,6 +198,7 @@ namespace nd {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..caf12cc 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -44,11 +44,17 @@ namespace nd {
 
         // Do a pass through the src types to classify them
         const std::vector<ndt::type> &child_arg_tp = child_tp->get_argument_types();
-        bool src_all_strided = true, src_all_strided_or_var = true;
+        intptr_t ndim = reinterpret_cast<data_type *>(data)->ndim;
+        bool src_all_strided = true, src_all_strided_or_var = true, var_broadcast = true;
         for (size_t i = 0; i < nsrc; ++i) {
           intptr_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          if (src_ndim < ndim) {
+            // This src does not have the dimension being processed, it broadcasts like a size-one dimension
+            continue;
+          }
           switch (src_tp[i].get_id()) {
           case fixed_dim_id:
+            var_broadcast &= src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1;
             break;
           case var_dim_id:
             src_all_strided = false;
@@ -56,6 +62,7 @@ namespace nd {
           default:
             // If it's a scalar, allow it to broadcast like
             // a strided dimension
+            var_broadcast = false;
             if (src_ndim > 0) {
               src_all_strided_or_var = false;
             }
@@ -63,13 +70,6 @@ namespace nd {
           }
         }
 
-        bool var_broadcast = !src_all_strided;
-        for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
-                           (src_tp[i].get_id() == fixed_dim_id &&
-                            src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
-        }
-
         if ((dst_variadic || (dst_tp.get_id() == fixed_dim_id || res_ignore)) && src_all_strided) {
           static callable f = make_callable<elwise_callable<fixed_dim_id, fixed_dim_id, no_traits, N>>();
           static callable g = make_callable<elwise_callable<fixed_dim_id, fixed_dim_id, state_traits, N>>();
@@ -78,10 +78,10 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (((dst_variadic) || dst_tp.get_id() == var_dim_id) && (var_broadcast || src_all_strided)) {
+        } else if (src_all_strided_or_var && ((dst_variadic && var_broadcast) || dst_tp.get_id() == var_dim_id)) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
-        } else if (src_all_strided_or_var) {
+        } else if (src_all_strided_or_var && (dst_variadic || dst_tp.get_id() == fixed_dim_id || res_ignore)) {
           static callable f = make_callable<elwise_callable<fixed_dim_id, var_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         }
-- 
2.43.0


From 3fd1421ab3a1ac4f1a929ed8eb6c15fb58671d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 05/81] fix: infinite loop choosing the strides of a copy when
 the innermost dimension has zero stride

---
 src/dynd/types/fixed_dim_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 894c534..36da17e 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -470,7 +470,7 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
       intptr_t i = ndim_partial - 2;
       do {
         stride = md[i].stride;
-      } while (stride == 0 && i >= 0);
+      } while (stride == 0 && --i >= 0);
     }
     for (size_t i = 0; i < ndim_partial; ++i) {
       int i_perm = axis_perm[i];
@@ -497,7 +497,7 @@ void ndt::fixed_dim_type::reorder_default_constructed_strides(char *dst_arrmeta,
         intptr_t i = ndim - 2;
         do {
           stride = md[i].stride;
-        } while (stride == 0 && i >= (intptr_t)ndim_partial);
+        } while (stride == 0 && --i >= (intptr_t)ndim_partial);
       }
       for (size_t i = ndim_partial; i != ndim; ++i) {
         intptr_t dim_size = md[i].dim_size;
-- 
2.43.0


From e7944691dd1d35da0ad4ea43c0b6975285df106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 06/81] fix: indexing below a range of tuple or struct fields
 loses the offset of the inner index

---
 src/dynd/types/struct_type.cpp | 5 +++--
 src/dynd/types/tuple_type.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9933419..2d8f8c7 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -264,10 +264,11 @@ intptr_t ndt::struct_type::apply_linear_index(intptr_t nindices, const irange *i
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &dt = result_e_dt->get_field_type(i);
+        const type &dt = get_field_type(idx);
         if (!dt.is_builtin()) {
           out_offsets[i] +=
-              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], dt,
+              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx],
+                                                result_e_dt->get_field_type(i),
                                                 out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
                                                 current_i + 1, root_tp, false, NULL, tmp);
         }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5d774b5..4a963c0 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -171,10 +171,11 @@ intptr_t ndt::tuple_type::apply_linear_index(intptr_t nindices, const irange *in
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &ft = result_e_dt->get_field_type(i);
+        const type &ft = get_field_type(idx);
         if (!ft.is_builtin()) {
           out_offsets[i] +=
-              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], ft,
+              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx],
+                                                result_e_dt->get_field_type(i),
                                                 out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
                                                 current_i + 1, root_tp, false, NULL, tmp);
         }
-- 
2.43.0


From 385f2c8a049cc314e8557568cdbda4cde6302205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 07/81] fix: comparing records of more than eight fields
 overflows a fixed-size buffer

---
 include/dynd/callables/equal_callable.hpp     | 4 ++--
 include/dynd/callables/not_equal_callable.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..f3ef410 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -34,7 +34,7 @@ namespace nd {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
 
       auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
+      std::vector<uintptr_t> arrmeta_offsets(field_count);
       for (size_t i = 0; i < field_count; ++i) {
         arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
       }
@@ -90,7 +90,7 @@ namespace nd {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
 
       auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
+      std::vector<uintptr_t> arrmeta_offsets(field_count);
       for (size_t i = 0; i < field_count; ++i) {
         arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
       }
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..87ab76f 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -34,7 +34,7 @@ namespace nd {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
 
       auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
+      std::vector<uintptr_t> arrmeta_offsets(field_count);
       for (size_t i = 0; i < field_count; ++i) {
         arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
       }
@@ -90,7 +90,7 @@ namespace nd {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
 
       auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
+      std::vector<uintptr_t> arrmeta_offsets(field_count);
       for (size_t i = 0; i < field_count; ++i) {
         arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
       }
-- 
2.43.0


From caba5561034e9a05bf2e6d9e347010f2f01bc59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 08/81] fix: assignment between structs with reordered fields,
 and records of more than eight fields

The per-field arrmeta offsets of the source are already permuted to
destination order and must not be looked up through the permutation a
second time; fixed-size arrays of 8 offsets overflowed.
---
 include/dynd/callables/assign_callable.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 5e2c0ad..1247e0a 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -685,8 +685,8 @@ namespace nd {
         throw type_error(ss.str());
       }
 
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
-      std::array<uintptr_t, 8> src_arrmeta_offsets;
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> src_arrmeta_offsets(field_count);
       for (int i = 0; i < field_count; ++i) {
         src_arrmeta_offsets[i] = src_sd->get_arrmeta_offsets()[i];
         dst_arrmeta_offsets[i] = dst_sd->get_arrmeta_offsets()[i];
@@ -746,9 +746,9 @@ namespace nd {
       const ndt::struct_type *dst_sd = dst_tp.extended<ndt::struct_type>();
       const ndt::struct_type *src_sd = src_tp[0].extended<ndt::struct_type>();
       intptr_t field_count = dst_sd->get_field_count();
-      std::array<intptr_t, 8> src_permutation;
-      std::array<uintptr_t, 8> src_fields_arrmeta_offsets;
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
+      std::vector<intptr_t> src_permutation(field_count);
+      std::vector<uintptr_t> src_fields_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
 
       if (field_count != src_sd->get_field_count()) {
         std::stringstream ss;
@@ -794,7 +794,7 @@ namespace nd {
         for (intptr_t i = 0; i != field_count; ++i) {
           intptr_t src_i = src_permutation[i];
           src_data_offsets[i] = src_data_offsets_orig[src_i];
-          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[src_i];
+          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[i];
         }
 
         shortvector<const char *> dst_fields_arrmeta(field_count);
-- 
2.43.0


From 8c1addc7ecf055ebaef92bc4ee048b437b53888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 09/81] fix: initialize the whole shape in
 dim_fragment_type::broadcast_with_type

Merging a shorter type left the trailing entries of the new shape uninitialized, so
arguments that broadcast were rejected by a typevar dims match.
---
 src/dynd/types/dim_fragment_type.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/dim_fragment_type.cpp b/src/dynd/types/dim_fragment_type.cpp
index f1d9bf7..041ae6f 100644
--- a/src/dynd/types/dim_fragment_type.cpp
+++ b/src/dynd/types/dim_fragment_type.cpp
@@ -90,13 +90,14 @@ ndt::type ndt::dim_fragment_type::broadcast_with_type(intptr_t ndim, const type
   if (ndim > this_ndim) {
     dimvector shape(ndim);
     type dtp = get_tagged_dims_from_type(ndim - this_ndim, tp, shape.get());
+    memcpy(shape.get() + (ndim - this_ndim), get_tagged_dims(), this_ndim * sizeof(intptr_t));
     if (!broadcast_tagged_dims_from_type(this_ndim, dtp, get_tagged_dims(), shape.get() + (ndim - this_ndim))) {
       return type();
     }
     return make_dim_fragment(ndim, shape.get());
   } else if (ndim < this_ndim) {
     dimvector shape(this_ndim);
-    memcpy(shape.get(), get_tagged_dims(), (this_ndim - ndim) * sizeof(intptr_t));
+    memcpy(shape.get(), get_tagged_dims(), this_ndim * sizeof(intptr_t));
     if (!broadcast_tagged_dims_from_type(ndim, tp, get_tagged_dims() + (this_ndim - ndim),
                                          shape.get() + (this_ndim - ndim))) {
       return type();
-- 
2.43.0


From 3b26ff10e49dc72853ed1c6fb80aec450363183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 10/81] fix: check the destination type in
 base_dispatch_callable

The child chosen by the argument types was instantiated with whatever destination type
was given, so a scalar builtin wrote only the first element of an array destination, or
wrote a value of another type.
---
 include/dynd/callables/base_dispatch_callable.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dynd/callables/base_dispatch_callable.hpp b/include/dynd/callables/base_dispatch_callable.hpp
index d69e080..f02db04 100644
--- a/include/dynd/callables/base_dispatch_callable.hpp
+++ b/include/dynd/callables/base_dispatch_callable.hpp
@@ -20,6 +20,11 @@ namespace nd {
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
       const callable &child = specialize(dst_tp, nsrc, src_tp);
+      if (!dst_tp.is_symbolic() && !child->get_ret_type().match(dst_tp)) {
+        std::stringstream ss;
+        ss << "cannot store a result of type " << child->get_ret_type() << " in a destination of type " << dst_tp;
+        throw std::invalid_argument(ss.str());
+      }
       return child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, nsrc, src_tp,
                             nkwd, kwds, tp_vars);
     }
-- 
2.43.0


From 9535cacc456311cf5732323aa1fa458c041052a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 11/81] fix: reductions over empty, strided, non-leading and
 several-argument dimensions

The reduced dimensions were walked with wrong strides or counts when the first reduced
dimension was not the first dimension, empty dimensions left the result uninitialized,
the identity was stored with its own type rather than the type of the result, and
keepdims used stale metadata.
---
 .../callables/base_reduction_callable.hpp     |  25 ++-
 include/dynd/callables/reduction_callable.hpp |  26 ++-
 include/dynd/kernels/reduction_kernel.hpp     | 204 +++++++-----------
 .../dynd/kernels/reduction_kernel_prefix.hpp  |   5 +
 4 files changed, 123 insertions(+), 137 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index e985a12..d5c70a9 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -36,6 +36,18 @@ namespace nd {
 
       base_reduction_callable() : base_callable(ndt::type()) {}
 
+      // The identity kernel writes to memory of the type of the result, so it
+      // has to produce a value of that type
+      static callable typed_identity(const callable &identity, const ndt::type &ret_tp) {
+        if (identity->get_ret_type().is_symbolic() || identity->get_ret_type() == ret_tp) {
+          return identity;
+        }
+
+        array val = empty(ret_tp);
+        val.assign(identity());
+        return constant(val);
+      }
+
       virtual void resolve(call_graph &cg, char *data) = 0;
 
       ndt::type resolve(base_callable *caller, char *data, call_graph &cg, const ndt::type &res_tp, size_t nsrc,
@@ -73,7 +85,7 @@ namespace nd {
           ret_element_tp =
               child->resolve(this, nullptr, cg, child_ret_tp, nsrc, arg_element_tp.data(), nkwd - 2, kwds + 2, tp_vars);
 
-          nd::callable constant = reinterpret_cast<data_type *>(data)->identity;
+          nd::callable constant = typed_identity(reinterpret_cast<data_type *>(data)->identity, ret_element_tp);
           constant->resolve(this, nullptr, cg, ret_element_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else {
           node.inner = false;
@@ -189,7 +201,7 @@ namespace nd {
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, nullptr, (broadcast || keepdim) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
@@ -198,14 +210,19 @@ namespace nd {
 
     template <size_t NArg>
     class reduction_callable<var_dim_id, NArg> : public base_reduction_callable {
-      void resolve(call_graph &cg, char *DYND_UNUSED(data)) {
+      void resolve(call_graph &cg, char *data) {
+        if (NArg != 1 || !reinterpret_cast<node_type *>(data)->inner || reinterpret_cast<node_type *>(data)->broadcast) {
+          throw std::runtime_error("only the innermost dimension of a single argument can be a reduced var dimension");
+        }
+
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq,
                            char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                            const char *const *src_arrmeta) {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
-              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride);
+              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride,
+              reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->offset);
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
           const char *src_element_arrmeta[NArg];
diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 8f72e5d..c6844fb 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -26,7 +26,19 @@ namespace nd {
       ndt::type resolve(base_callable *DYND_UNUSED(caller), char *data, call_graph &cg, const ndt::type &dst_tp,
                         size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                         const std::map<std::string, ndt::type> &tp_vars) {
+        // All the arguments are traversed together, they must have the same dimensions
+        for (size_t i = 1; i < nsrc; ++i) {
+          if (src_tp[i].get_ndim() != src_tp[0].get_ndim() ||
+              (!src_tp[0].is_scalar() &&
+               (src_tp[i].get_id() != src_tp[0].get_id() ||
+                src_tp[i].extended<ndt::base_dim_type>()->get_dim_size() !=
+                    src_tp[0].extended<ndt::base_dim_type>()->get_dim_size()))) {
+            throw broadcast_error(src_tp[0], nullptr, src_tp[i], nullptr);
+          }
+        }
+
         new_data_type new_data;
+        std::vector<int> axes;
         if (data == nullptr) {
           new_data.identity = m_identity;
           new_data.child = m_child;
@@ -35,7 +47,11 @@ namespace nd {
             new_data.axes = NULL;
           } else {
             new_data.naxis = kwds[0].get_dim_size();
-            new_data.axes = reinterpret_cast<const int *>(kwds[0].cdata());
+            axes.resize(new_data.naxis + 1);
+            for (size_t i = 0; i < new_data.naxis; ++i) {
+              axes[i] = kwds[0](i).as<int>();
+            }
+            new_data.axes = axes.data();
           }
 
           if (kwds[1].is_na()) {
@@ -90,7 +106,8 @@ namespace nd {
 
           ndt::type ret_tp = m_child->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
 
-          m_identity->resolve(this, nullptr, cg, ret_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          base_reduction_callable::typed_identity(m_identity, ret_tp)
+              ->resolve(this, nullptr, cg, ret_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
 
           return ret_tp;
         }
@@ -100,8 +117,9 @@ namespace nd {
                                   make_callable<reduction_callable<fixed_dim_id, 2>>()};
           return f[nsrc - 1]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else {
-          static callable f = make_callable<reduction_callable<var_dim_id, 1>>();
-          return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+          static callable f[2] = {make_callable<reduction_callable<var_dim_id, 1>>(),
+                                  make_callable<reduction_callable<var_dim_id, 2>>()};
+          return f[nsrc - 1]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         }
       }
     };
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 58f6a9b..a528f76 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -67,12 +67,17 @@ namespace nd {
         }
         // The function pointer for followup accumulation calls
         self->set_followup_call_function(SelfType::strided_followup_wrapper);
+        self->identity_call_function = SelfType::identity_wrapper;
       }
 
       static void destruct(kernel_prefix *self) { reinterpret_cast<SelfType *>(self)->~SelfType(); }
 
       constexpr size_t size() const { return sizeof(SelfType); }
 
+      static void identity_wrapper(kernel_prefix *self, char *dst) {
+        return reinterpret_cast<SelfType *>(self)->identity(dst);
+      }
+
       static void single_first_wrapper(kernel_prefix *self, char *dst, char *const *src) {
         return reinterpret_cast<SelfType *>(self)->single_first(dst, src);
       }
@@ -124,8 +129,15 @@ namespace nd {
 
       ~reduction_kernel() { this->get_child()->destroy(); }
 
+      void identity(char *dst) { this->get_reduction_child()->identity(dst); }
+
       void single_first(char *dst, char *const *src) {
         reduction_kernel_prefix *child = this->get_reduction_child();
+        if (src0_element_size == 0) {
+          // Nothing to accumulate
+          child->identity(dst);
+          return;
+        }
         // The first call at the "dst" address
         child->single_first(dst, src);
         if (src0_element_size > 1) {
@@ -140,49 +152,23 @@ namespace nd {
       }
 
       void strided_first(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
-        reduction_kernel_prefix *child = this->get_reduction_child();
-
         char *child_src[NArg];
         for (size_t i = 0; i < NArg; ++i) {
           child_src[i] = src[i];
         }
 
-        if (dst_stride == 0) {
+        for (size_t i = 0; i != count; ++i) {
           // With a zero stride, we have one "first", followed by many
-          // "followup" calls
-          child->single_first(dst, child_src);
-          if (src0_element_size > 1) {
-            char *inner_src_second[NArg];
-            for (size_t j = 0; j < NArg; ++j) {
-              inner_src_second[j] = child_src[j] + src_element_stride[j];
-            }
-            child->strided_followup(dst, 0, inner_src_second, src_element_stride, src0_element_size - 1);
-          }
-          for (size_t i = 0; i < NArg; ++i) {
-            child_src[i] += src_stride[i];
+          // "followup" calls. With a non-zero stride, each iteration of
+          // the outer loop is "first"
+          if (i == 0 || dst_stride != 0) {
+            single_first(dst, child_src);
+          } else {
+            strided_followup(dst, 0, child_src, src_stride, 1);
           }
-          for (std::size_t i = 1; i != count; ++i) {
-            child->strided_followup(dst, 0, child_src, src_element_stride, src0_element_size);
-            for (size_t i = 0; i < NArg; ++i) {
-              child_src[i] += src_stride[i];
-            }
-          }
-        } else {
-          // With a non-zero stride, each iteration of the outer loop is
-          // "first"
-          for (size_t i = 0; i != count; ++i) {
-            child->single_first(dst, child_src);
-            if (src0_element_size > 1) {
-              char *inner_src_second[NArg];
-              for (size_t j = 0; j < NArg; ++j) {
-                inner_src_second[j] = child_src[j] + src_element_stride[j];
-              }
-              child->strided_followup(dst, 0, inner_src_second, src_element_stride, src0_element_size - 1);
-            }
-            dst += dst_stride;
-            for (size_t i = 0; i < NArg; ++i) {
-              child_src[i] += src_stride[i];
-            }
+          dst += dst_stride;
+          for (size_t j = 0; j < NArg; ++j) {
+            child_src[j] += src_stride[j];
           }
         }
       }
@@ -223,7 +209,6 @@ namespace nd {
     template <size_t NArg>
     struct reduction_kernel<ndt::fixed_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::fixed_dim_type, false, true, NArg>, NArg> {
-      // The code assumes that size >= 1
       intptr_t size_first;
       intptr_t src_stride_first[NArg];
       intptr_t _size;
@@ -235,6 +220,8 @@ namespace nd {
         this->get_child(init_offset)->destroy();
       }
 
+      void identity(char *dst) { this->get_child(init_offset)->single(dst, nullptr); }
+
       void single_first(char *dst, char *const *src) {
         char *child_src[NArg];
         for (size_t i = 0; i < NArg; ++i) {
@@ -252,48 +239,24 @@ namespace nd {
       }
 
       void strided_first(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
-        kernel_prefix *init_child = this->get_child(init_offset);
-        kernel_prefix *reduction_child = this->get_child();
-
         char *child_src[NArg];
         for (size_t j = 0; j < NArg; ++j) {
           child_src[j] = src[j];
         }
 
-        if (dst_stride == 0) {
+        for (size_t i = 0; i != count; ++i) {
           // With a zero stride, we initialize "dst" once, then do many
-          // accumulations
-          init_child->single(dst, child_src);
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
+          // accumulations. With a non-zero stride, each iteration of the
+          // outer loop has to initialize then reduce
+          if (i == 0 || dst_stride != 0) {
+            single_first(dst, child_src);
+          } else {
+            this->get_child()->strided(dst, 0, child_src, this->src_stride, _size);
           }
 
-          reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
-
-          for (std::size_t i = 1; i != count; ++i) {
-            reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
-
-            dst += dst_stride;
-            for (size_t j = 0; j < NArg; ++j) {
-              child_src[j] += src_stride[j];
-            }
-          }
-        } else {
-          // With a non-zero stride, each iteration of the outer loop has to
-          // initialize then reduce
-          for (size_t i = 0; i != count; ++i) {
-            init_child->single(dst, child_src);
-
-            char *inner_child_src[NArg];
-            for (size_t j = 0; j < NArg; ++j) {
-              inner_child_src[j] = child_src[j] + src_stride_first[j];
-            }
-            reduction_child->strided(dst, 0, inner_child_src, this->src_stride, size_first);
-
-            dst += dst_stride;
-            for (size_t j = 0; j < NArg; ++j) {
-              child_src[j] += src_stride[j];
-            }
+          dst += dst_stride;
+          for (size_t j = 0; j < NArg; ++j) {
+            child_src[j] += src_stride[j];
           }
         }
       }
@@ -323,19 +286,23 @@ namespace nd {
     struct reduction_kernel<ndt::var_dim_type, false, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
+      intptr_t src0_inner_offset;
       intptr_t init_offset;
 
-      reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
+      reduction_kernel(std::intptr_t src0_inner_stride, std::intptr_t src0_inner_offset)
+          : src0_inner_stride(src0_inner_stride), src0_inner_offset(src0_inner_offset) {}
 
       ~reduction_kernel() {
         this->get_child(init_offset)->destroy();
         this->get_child()->destroy();
       }
 
+      void identity(char *dst) { this->get_child(init_offset)->single(dst, nullptr); }
+
       void single_first(char *dst, char *const *src) {
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
-        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
+        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin + src0_inner_offset;
         this->get_child(init_offset)->single(dst, &src0_data);
 
         this->get_child()->strided(dst, 0, &src0_data, &src0_inner_stride, inner_size);
@@ -347,7 +314,7 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != count; ++i) {
-          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_inner_offset;
           init_child->single(dst, &src0_data);
 
           reduction_child->strided(dst, 0, &src0_data, &src0_inner_stride,
@@ -362,7 +329,8 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != size; ++i) {
-          child->strided(dst, 0, &reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin, &src0_inner_stride,
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_inner_offset;
+          child->strided(dst, 0, &src0_data, &src0_inner_stride,
                          reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->size);
           dst += dst_stride;
           src0 += src_stride[0];
@@ -448,6 +416,12 @@ namespace nd {
 
       ~reduction_kernel() { this->get_child()->destroy(); }
 
+      void identity(char *dst) {
+        for (intptr_t i = 0; i < _size; ++i) {
+          this->get_reduction_child()->identity(dst + i * dst_stride);
+        }
+      }
+
       void single_first(char *dst, char *const *src) {
         reduction_kernel_prefix *child = this->get_reduction_child();
         child->strided_first(dst, dst_stride, src, src_stride, _size);
@@ -463,36 +437,20 @@ namespace nd {
           child_src[j] = src[j];
         }
 
-        if (dst_stride == 0) {
+        for (size_t i = 0; i != count; ++i) {
           // With a zero stride, we have one "first", followed by many
-          // "followup"
-          // calls
-          opchild_first_call(echild, dst, this->dst_stride, child_src, this->src_stride, this->_size);
+          // "followup" calls. With a non-zero stride, each iteration of
+          // the outer loop is "first"
+          if (i == 0 || dst_stride != 0) {
+            opchild_first_call(echild, dst, this->dst_stride, child_src, this->src_stride, this->_size);
+          } else {
+            opchild_followup_call(echild, dst, this->dst_stride, child_src, this->src_stride, this->_size);
+          }
 
           dst += dst_stride;
           for (size_t j = 0; j < NArg; ++j) {
             child_src[j] += src_stride[j];
           }
-
-          for (intptr_t i = 1; i < (intptr_t)count; ++i) {
-            opchild_followup_call(echild, dst, this->dst_stride, child_src, this->src_stride, this->_size);
-
-            dst += dst_stride;
-            for (size_t j = 0; j < NArg; ++j) {
-              child_src[j] += src_stride[j];
-            }
-          }
-        } else {
-          // With a non-zero stride, each iteration of the outer loop is
-          // "first"
-          for (size_t i = 0; i != count; ++i) {
-            opchild_first_call(echild, dst, this->dst_stride, child_src, this->src_stride, this->_size);
-
-            dst += dst_stride;
-            for (size_t j = 0; j < NArg; ++j) {
-              child_src[j] += src_stride[j];
-            }
-          }
         }
       }
 
@@ -532,7 +490,6 @@ namespace nd {
     template <size_t NArg>
     struct reduction_kernel<ndt::fixed_dim_type, true, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::fixed_dim_type, true, true, NArg>, NArg> {
-      // The code assumes that size >= 1
       intptr_t _size;
       intptr_t dst_stride;
       intptr_t src_stride[NArg];
@@ -555,6 +512,10 @@ namespace nd {
         this->get_child(dst_init_kernel_offset)->destroy();
       }
 
+      void identity(char *dst) {
+        this->get_child(dst_init_kernel_offset)->strided(dst, dst_stride, nullptr, src_stride_first, _size);
+      }
+
       void single_first(char *dst, char *const *src) {
         // Initialize the dst values
         this->get_child(dst_init_kernel_offset)->strided(dst, dst_stride, src, src_stride_first, _size);
@@ -565,39 +526,24 @@ namespace nd {
       }
 
       void strided_first(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count) {
-        kernel_prefix *init_child = this->get_child(dst_init_kernel_offset);
-        kernel_prefix *reduction_child = this->get_child();
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
 
-        char *child_src[NArg] = {src[0]};
-        if (dst_stride == 0) {
+        for (size_t i = 0; i != count; ++i) {
           // With a zero stride, we initialize "dst" once, then do many
-          // accumulations
-          init_child->strided(dst, this->dst_stride, child_src, this->src_stride_first, this->_size);
-
-          dst += dst_stride_first;
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
+          // accumulations. With a non-zero stride, every iteration is an
+          // initialization
+          if (i == 0 || dst_stride != 0) {
+            single_first(dst, child_src);
+          } else {
+            this->get_child()->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
           }
 
-          for (size_t i = 1; i != count; ++i) {
-            reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
-
-            for (size_t j = 0; j < NArg; ++j) {
-              child_src[j] += src_stride[j];
-            }
-          }
-        } else {
-          // With a non-zero stride, every iteration is an initialization
-          for (size_t i = 0; i != count; ++i) {
-            init_child->strided(dst, this->dst_stride, child_src, src_stride_first, _size);
-            if (src_stride_first[0] == 0) {
-              reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, _size);
-            }
-
-            dst += dst_stride;
-            for (size_t j = 0; j < NArg; ++j) {
-              child_src[j] += src_stride[j];
-            }
+          dst += dst_stride;
+          for (size_t j = 0; j < NArg; ++j) {
+            child_src[j] += src_stride[j];
           }
         }
       }
diff --git a/include/dynd/kernels/reduction_kernel_prefix.hpp b/include/dynd/kernels/reduction_kernel_prefix.hpp
index fbb24e6..111268f 100644
--- a/include/dynd/kernels/reduction_kernel_prefix.hpp
+++ b/include/dynd/kernels/reduction_kernel_prefix.hpp
@@ -15,6 +15,9 @@ namespace nd {
       // This function pointer is for all the calls of the function
       // on a given destination data address after the "first call".
       kernel_strided_t followup_call_function;
+      // This function pointer sets the destination to the identity, without
+      // accumulating anything into it (reduction of an empty dimension).
+      void (*identity_call_function)(kernel_prefix *self, char *dst);
 
       template <typename T>
       T get_first_call_function() const
@@ -32,6 +35,8 @@ namespace nd {
 
       void set_followup_call_function(kernel_strided_t fnptr) { followup_call_function = fnptr; }
 
+      void identity(char *dst) { (*identity_call_function)(this, dst); }
+
       void single_first(char *dst, char *const *src) { (*reinterpret_cast<kernel_single_t>(function))(this, dst, src); }
 
       void strided_first(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t count)
-- 
2.43.0


From 5e3dd06bfef6fa982dec90168252e70359db6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 12/81] fix: reduce a scalar with the return type of the child
 callable

all() of a scalar failed with a type error, as the declared type Dims... * bool was
taken for the type of the result.
---
 include/dynd/callables/reduction_callable.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index c6844fb..aa60c81 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -104,7 +104,8 @@ namespace nd {
 
           });
 
-          ndt::type ret_tp = m_child->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
+          ndt::type ret_tp =
+              m_child->resolve(this, nullptr, cg, m_child->get_ret_type(), nsrc, src_tp, nkwd - 2, kwds + 2, tp_vars);
 
           base_reduction_callable::typed_identity(m_identity, ret_tp)
               ->resolve(this, nullptr, cg, ret_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
-- 
2.43.0


From 2015245c13b0802dfdb654af39153acb520e73b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 13/81] fix: detect floating point values just past the integer
 range, and NaN, in checked casts

---
 include/dynd/assignment.hpp | 44 +++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..cad1672 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -240,13 +240,23 @@ check_cast(ArgType s, inexact_check_t) {
   return d;
 }
 
+// Whether a floating point value is outside the range of an integer type. The largest value of the integer type
+// may not be representable as a floating point number, and rounds up to a power of two that is out of range. A NaN
+// is out of range as well.
+template <typename RetType, typename ArgType>
+bool is_int_overflow(ArgType s) {
+DYND_ALLOW_INT_FLOAT_CAST
+  return !(s >= static_cast<ArgType>(std::numeric_limits<RetType>::min()) &&
+           s <= static_cast<ArgType>(std::numeric_limits<RetType>::max()) &&
+           s < std::ldexp(static_cast<ArgType>(1), 8 * sizeof(RetType) - (is_signed<RetType>::value ? 1 : 0)));
+DYND_END_ALLOW_INT_FLOAT_CAST
+}
+
 // Floating point -> signed int with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -267,9 +277,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -284,9 +292,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -305,9 +311,7 @@ overflow_cast(ArgType s) {
     ss << s << " to " << ndt::make_type<RetType>();
     throw std::runtime_error(ss.str());
   }
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -508,9 +512,7 @@ overflow_cast(ArgType s) {
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -537,9 +539,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -560,9 +560,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -589,9 +587,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_int_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
-- 
2.43.0


From 538fe922952cb9ac62cd7f1d5c02acec629c73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:18 +0000
Subject: [PATCH 14/81] fix: sign handling, borrow and negation of the 128-bit
 integers

---
 include/dynd/int128.hpp  | 10 +++++-----
 include/dynd/uint128.hpp | 24 ++++++++++++------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index d815039..721498c 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -93,7 +93,7 @@ public:
   int128 &operator+=(const int128 &rhs)
   {
     uint64_t lo = m_lo + rhs.m_lo;
-    *this = int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    *this = int128(m_hi + rhs.m_hi + (lo < m_lo), lo);
 
     return *this;
   }
@@ -114,8 +114,8 @@ public:
 
   int128 operator-(const int128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    uint64_t lo = m_lo - rhs.m_lo;
+    return int128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), lo);
   }
 
   int128 operator*(uint32_t rhs) const;
@@ -128,7 +128,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.f;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.f);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.f;
@@ -139,7 +139,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.0;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.0);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.0;
diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 45ba2dd..b93ae6d 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -28,16 +28,16 @@ public:
 
   uint128(bool1) { throw std::runtime_error("uint128(bool1) is not implemented"); }
 
-  uint128(char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(signed char value) : m_lo(value), m_hi(0ULL) {}
+  uint128(char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
+  uint128(signed char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(short value) : m_lo(value), m_hi(0ULL) {}
+  uint128(short value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned short value) : m_lo(value), m_hi(0ULL) {}
-  uint128(int value) : m_lo(value), m_hi(0ULL) {}
+  uint128(int value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned int value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long long value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long long value) : m_lo(value), m_hi(0ULL) {}
   uint128(float value);
   uint128(double value);
@@ -59,7 +59,7 @@ public:
   {
     DYND_ALLOW_UNSIGNED_UNARY_MINUS
     if (this->m_lo != 0) {
-      return uint128(!this->m_hi, -this->m_lo);
+      return uint128(~this->m_hi, -this->m_lo);
     }
     else {
       return uint128(-this->m_hi, 0);
@@ -67,7 +67,7 @@ public:
     DYND_END_ALLOW_UNSIGNED_UNARY_MINUS
   }
 
-  bool operator!() const { return (m_hi != 0) && (m_lo != 0); }
+  bool operator!() const { return (m_hi == 0) && (m_lo == 0); }
 
   uint128 operator~() const { return uint128(~m_hi, ~m_lo); }
 
@@ -111,14 +111,14 @@ public:
 
   uint128 operator-(const uint128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return uint128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    uint64_t lo = m_lo - rhs.m_lo;
+    return uint128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), lo);
   }
 
   uint128 operator-(uint64_t rhs) const
   {
-    uint64_t lo = m_lo + ~rhs + 1;
-    return uint128(m_hi + 0xffffffffffffffffULL + (lo < m_lo), lo);
+    uint64_t lo = m_lo - rhs;
+    return uint128(m_hi - (m_lo < rhs), lo);
   }
 
   uint128 operator*(uint32_t rhs) const;
-- 
2.43.0


From 4e81947f092befc3e1c030c4f9f0fab9a7ef46f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 15/81] fix: print an empty variadic struct or tuple type as
 {...} and (...)

---
 src/dynd/types/struct_type.cpp | 2 +-
 src/dynd/types/tuple_type.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 2d8f8c7..68318e4 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -89,7 +89,7 @@ void ndt::struct_type::print_type(std::ostream &o) const {
     o << ": " << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...}";
+    o << (m_field_count > 0 ? ", ...}" : "...}");
   } else {
     o << "}";
   }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 4a963c0..c584c74 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -195,7 +195,7 @@ void ndt::tuple_type::print_type(std::ostream &o) const {
     o << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...)";
+    o << (m_field_count > 0 ? ", ...)" : "...)");
   } else {
     o << ")";
   }
-- 
2.43.0


From e32804b7fad54deb3d7b603eb0f6084556d3afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 16/81] fix: print the base of a Fixed**N dimension power

---
 src/dynd/types/pow_dimsym_type.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 2961fe5..a9805f0 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -19,12 +19,11 @@ void ndt::pow_dimsym_type::print_data(std::ostream &DYND_UNUSED(o), const char *
 
 void ndt::pow_dimsym_type::print_type(std::ostream &o) const {
   switch (m_base_tp.get_id()) {
+  case fixed_dim_kind_id:
+    o << "Fixed";
+    break;
   case fixed_dim_id:
-    if (m_base_tp.is_symbolic()) {
-      o << "Fixed";
-    } else {
-      o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
-    }
+    o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
     break;
   case var_dim_id:
     o << "var";
-- 
2.43.0


From 8ee354430cd7c93fc4dc8cdd7e14eb9b2f0132a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 17/81] fix: accept whitespace after ** in a datashape

---
 src/dynd/types/datashape_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index a4dc23d..b781486 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -665,6 +665,7 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
       // Save the extents of the base dim token
       const char *bbegin = nbegin;
       const char *bend = nend;
+      skip_whitespace_and_pound_comments(begin, end);
       if (parse_name_or_number(begin, end, nbegin, nend)) {
         if ('1' <= *nbegin && *nbegin <= '9') {
           intptr_t exponent = parse<intptr_t>(nbegin, nend);
-- 
2.43.0


From 5c9eb29a54980afee6700d8772121215a9a644f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 18/81] fix: parse the \UXXXXXXXX escape in datashape strings,
 which is how they are printed

---
 src/dynd/parse_util.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index c3bb728..6b4ca88 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -458,12 +458,14 @@ bool datashape::parse_quoted_string(const char *&rbegin, const char *end, std::s
       case 't':
         out_val += '\t';
         break;
-      case 'u': {
-        if (end - begin < 4) {
+      case 'u':
+      case 'U': {
+        int ndigits = (c == 'u') ? 4 : 8;
+        if (end - begin < ndigits) {
           throw datashape::internal_parse_error(begin - 2, "invalid unicode escape sequence in string");
         }
         uint32_t cp = 0;
-        for (int i = 0; i < 4; ++i) {
+        for (int i = 0; i < ndigits; ++i) {
           char d = *begin++;
           cp *= 16;
           if ('0' <= d && d <= '9') {
-- 
2.43.0


From 8632819ee076e0b8fea04593fcca3d7ad0f8b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:21 +0000
Subject: [PATCH 19/81] fix: reject a tuple datashape with keyword arguments
 instead of dropping them

---
 src/dynd/types/datashape_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index b781486..854dc64 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -563,8 +563,8 @@ static ndt::type parse_tuple_or_funcproto(const char *&rbegin, const char *end,
           funcproto_kwd = parse_funcproto_kwds(begin, end, symtable);
           if (!funcproto_kwd.is_null()) {
             if (!datashape::parse_token(begin, end, "->")) {
-              rbegin = begin;
-              return ndt::make_type<ndt::tuple_type>(field_type_list.size(), field_type_list.data());
+              // Only a function prototype may have keyword arguments
+              throw datashape::internal_parse_error(begin, "expected '->' after keyword arguments");
             }
 
             ndt::type return_type = datashape::parse(begin, end, symtable);
-- 
2.43.0


From 3b51f6f882a8099f2610a873e66b1c8fc069784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 20/81] fix: reject a dimension power without '*' or element
 type, or of a reserved name

---
 src/dynd/types/datashape_parser.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 854dc64..792be39 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -673,6 +673,9 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
           }
           ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
           if ('0' <= *bbegin && *bbegin <= '9') {
             intptr_t dim_size = parse<intptr_t>(bbegin, bend);
             result = ndt::pow(ndt::make_fixed_dim(dim_size, element_tp), exponent);
@@ -680,29 +683,35 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             result = ndt::pow(ndt::make_type<ndt::var_dim_type>(element_tp), exponent);
           } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
             result = ndt::pow(ndt::make_type<ndt::fixed_dim_kind_type>(element_tp), exponent);
-          } else if (isupper(*bbegin)) {
+          } else if (isupper(*bbegin) && lookup_id_by_name(std::string(bbegin, bend)).first == uninitialized_id) {
             result = ndt::pow(ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), element_tp), exponent);
           } else {
             throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
           }
         } else if (isupper(*nbegin)) {
           std::string exponent_name(nbegin, nend);
-          if (datashape::parse_token(begin, end, '*')) {
+          if (!datashape::parse_token(begin, end, '*')) {
+            throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
+          } else {
+            ndt::type element_tp = datashape::parse(begin, end, symtable);
+            if (element_tp.is_null()) {
+              throw datashape::internal_parse_error(begin, "expected a dynd type");
+            }
             if ('0' <= *bbegin && *bbegin <= '9') {
               intptr_t dim_size = parse<intptr_t>(bbegin, bend);
               result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
+                                                            exponent_name, element_tp);
             } else if (compare_range_to_literal(bbegin, bend, "var")) {
               result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
+                                                            exponent_name, element_tp);
             } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
               result =
                   ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
-                                                       exponent_name, datashape::parse(begin, end, symtable));
-            } else if (isupper(*bbegin)) {
+                                                       exponent_name, element_tp);
+            } else if (isupper(*bbegin) && lookup_id_by_name(std::string(bbegin, bend)).first == uninitialized_id) {
               result = ndt::make_type<ndt::pow_dimsym_type>(
                   ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
-                  exponent_name, datashape::parse(begin, end, symtable));
+                  exponent_name, element_tp);
             } else {
               throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
             }
-- 
2.43.0


From 3d93d0d902f98667d9fc8f0186496227399c3c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 21/81] fix: bind the type variables below a Dim when matching
 a pattern

---
 src/dynd/types/dim_kind_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/dim_kind_type.cpp b/src/dynd/types/dim_kind_type.cpp
index 63e6d44..bf2ad19 100644
--- a/src/dynd/types/dim_kind_type.cpp
+++ b/src/dynd/types/dim_kind_type.cpp
@@ -16,8 +16,8 @@ ndt::dim_kind_type::dim_kind_type(type_id_t id, const type &element_tp)
   this->flags |= (element_tp.get_flags() & (type_flags_operand_inherited | type_flags_value_inherited));
 }
 
-bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1));
+bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
+  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1), tp_vars);
 }
 
 void ndt::dim_kind_type::print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From 66f63063498bd2c855c7e05ede1a92c920e0779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 22/81] fix: keep variadic tuples and structs variadic when
 substituting type variables

---
 src/dynd/types/substitute_typevars.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index b41192f..6a816d2 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -132,14 +132,23 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case var_dim_id:
     return ndt::make_type<ndt::var_dim_type>(
         ndt::substitute(pattern.extended<var_dim_type>()->get_element_type(), typevars, concrete));
-  case struct_id:
+  case struct_id: {
+    bool variadic = pattern.extended<struct_type>()->is_variadic();
+    if (concrete && variadic) {
+      throw invalid_argument("The dynd pattern type includes a variadic struct, which is not concrete as requested");
+    }
     return ndt::make_type<ndt::struct_type>(
         pattern.extended<struct_type>()->get_field_names(),
-        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete));
+        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete), variadic);
+  }
   case tuple_id: {
+    bool variadic = pattern.extended<tuple_type>()->is_variadic();
+    if (concrete && variadic) {
+      throw invalid_argument("The dynd pattern type includes a variadic tuple, which is not concrete as requested");
+    }
     const std::vector<ndt::type> &element_tp =
         substitute_type_array(pattern.extended<tuple_type>()->get_field_types(), typevars, concrete);
-    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data());
+    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data(), variadic);
   }
   case option_id:
     return ndt::make_type<ndt::option_type>(
-- 
2.43.0


From 00ff0b791127e05c2b1a4a5524eb59d9f142a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 23/81] fix: broadcast a size-one dimension with a var
 dimension to var in Dims... bindings

---
 src/dynd/types/dim_fragment_type.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/dim_fragment_type.cpp b/src/dynd/types/dim_fragment_type.cpp
index 041ae6f..b7e2542 100644
--- a/src/dynd/types/dim_fragment_type.cpp
+++ b/src/dynd/types/dim_fragment_type.cpp
@@ -48,7 +48,9 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
     } break;
     case fixed_dim_id: {
       dim_size = tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size();
-      if (tagged_dim < 0 || tagged_dim == 1) {
+      if (tagged_dim == dim_fragment_var && dim_size == 1) {
+        // A size-one dimension broadcasts to whatever size the var dimension has
+      } else if (tagged_dim < 0 || tagged_dim == 1) {
         out_tagged_dims[i] = dim_size;
       } else if (tagged_dim != dim_size && dim_size != 1) {
         return false;
@@ -56,6 +58,9 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
     } break;
     case var_dim_id:
       // All broadcasting is done dynamically for var
+      if (tagged_dim == 1) {
+        out_tagged_dims[i] = dim_fragment_var;
+      }
       break;
     default: {
       stringstream ss;
-- 
2.43.0


From 31ae1d5188a06d3b10a7f68ee233fe6819214335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 24/81] fix: substitute type variables below Dim and next to
 symbolic kinds

---
 src/dynd/types/substitute_typevars.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 6a816d2..548592f 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -17,6 +17,7 @@
 #include <dynd/types/typevar_constructed_type.hpp>
 #include <dynd/types/typevar_dim_type.hpp>
 #include <dynd/types/typevar_type.hpp>
+#include <dynd/types/dim_kind_type.hpp>
 #include <dynd/types/var_dim_type.hpp>
 
 using namespace std;
@@ -116,6 +117,15 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case pointer_id:
     return ndt::make_type<ndt::pointer_type>(
         ndt::substitute(pattern.extended<pointer_type>()->get_target_type(), typevars, concrete));
+  case dim_kind_id:
+    if (!concrete) {
+      return ndt::make_type<ndt::dim_kind_type>(
+          ndt::substitute(pattern.extended<base_dim_type>()->get_element_type(), typevars, concrete));
+    } else {
+      throw invalid_argument("The dynd pattern type includes a symbolic "
+                             "'Dim' dimension, which is not concrete as "
+                             "requested");
+    }
   case fixed_dim_kind_id:
     if (!concrete) {
       return ndt::make_type<ndt::fixed_dim_kind_type>(
@@ -366,7 +376,17 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
       throw invalid_argument("Cannot substitute into an unnamed ellipsis typevar");
     }
   }
-  case any_kind_id: {
+  case any_kind_id:
+  case bool_kind_id:
+  case int_kind_id:
+  case uint_kind_id:
+  case float_kind_id:
+  case complex_kind_id:
+  case bytes_kind_id:
+  case fixed_bytes_kind_id:
+  case string_kind_id:
+  case fixed_string_kind_id:
+  case categorical_kind_id: {
     if (concrete) {
       stringstream ss;
       ss << "The dynd type " << pattern << " is not concrete as required";
-- 
2.43.0


From 0897f549305c3243ef6f009ed94a2536796ca792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 25/81] fix: do not dereference a missing constructor binding,
 and require exponents for concrete substitutions

---
 src/dynd/types/substitute_typevars.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 548592f..2975503 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -166,6 +166,16 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case typevar_constructed_id: {
     map<std::string, ndt::type>::const_iterator it =
         typevars.find(pattern.extended<typevar_constructed_type>()->get_name());
+    if (it == typevars.end()) {
+      if (concrete) {
+        stringstream ss;
+        ss << "No substitution type for dynd type var " << pattern << " was available";
+        throw invalid_argument(ss.str());
+      }
+      return ndt::make_type<ndt::typevar_constructed_type>(
+          pattern.extended<typevar_constructed_type>()->get_name(),
+          substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete));
+    }
     if (it->second.get_id() == void_id) {
       return substitute(pattern.extended<typevar_constructed_type>()->get_arg(), typevars, concrete);
     }
@@ -306,6 +316,11 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
     if (exponent == 0) {
       return result;
     } else if (exponent < 0) {
+      if (concrete) {
+        stringstream ss;
+        ss << "No substitution for the exponent " << exponent_name << " of a dimensional power was available";
+        throw invalid_argument(ss.str());
+      }
       return ndt::make_type<ndt::pow_dimsym_type>(base_tp, exponent_name, result);
     } else {
       switch (base_tp.get_id()) {
-- 
2.43.0


From ef5a7eba5ad4d11a0a224f4ab5d80a85e4b77c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 26/81] fix: a power of var only matches var dimensions

---
 src/dynd/types/pow_dimsym_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index a9805f0..d4b2d28 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -215,6 +215,8 @@ bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string,
     for (intptr_t i = 0; i < exponent; ++i) {
       if (concrete_subtype.get_id() == var_dim_id) {
         concrete_subtype = concrete_subtype.extended<base_dim_type>()->get_element_type();
+      } else {
+        return false;
       }
     }
     break;
-- 
2.43.0


From 0af566a2cbcab9238e89b407ca8dea4e5ccbfcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 27/81] fix: check the types of keyword arguments passed by
 position

---
 include/dynd/callable.hpp |  3 +++
 src/dynd/callable.cpp     | 34 ++++++++++++++++++++++------------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/dynd/callable.hpp b/include/dynd/callable.hpp
index 72260cc..a0075f1 100644
--- a/include/dynd/callable.hpp
+++ b/include/dynd/callable.hpp
@@ -39,6 +39,9 @@ namespace nd {
     DYND_API void check_arg(const base_callable *self, intptr_t i, const ndt::type &actual_tp,
                             const char *actual_arrmeta, std::map<std::string, ndt::type> &tp_vars);
 
+    DYND_API void check_kwd(const base_callable *self, intptr_t k, const ndt::type &actual_tp,
+                            std::map<std::string, ndt::type> &tp_vars);
+
     template <template <typename...> class KernelType>
     struct make_all;
 
diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 5cdec25..a8c6651 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -71,6 +71,23 @@ void nd::detail::check_arg(const base_callable *self, intptr_t i, const ndt::typ
   }
 }
 
+void nd::detail::check_kwd(const base_callable *self, intptr_t k, const ndt::type &actual_tp,
+                           std::map<std::string, ndt::type> &tp_vars) {
+  const std::pair<ndt::type, std::string> &kwd_tp = self->get_kwd_types()[k];
+
+  ndt::type expected_tp = kwd_tp.first;
+  if (expected_tp.get_id() == option_id) {
+    expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
+  }
+
+  if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
+    std::stringstream ss;
+    ss << "keyword \"" << kwd_tp.second << "\" does not match, ";
+    ss << "callable expected " << expected_tp << " but passed " << actual_tp;
+    throw std::invalid_argument(ss.str());
+  }
+}
+
 nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
                              const pair<const char *, array> *unordered_kwds) const {
   std::map<std::string, ndt::type> tp_vars;
@@ -108,6 +125,10 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
 
     for (; narg > m_ptr->get_narg(); ++i, --narg, ++j, ++nkwd) {
+      if (j < m_ptr->get_nkwd()) {
+        detail::check_kwd(m_ptr, j, args[i].get_type(), tp_vars);
+      }
+
       kwds[j] = args[i];
     }
   }
@@ -135,18 +156,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
       }
       value = unordered_kwds->second;
 
-      ndt::type expected_tp = kwd_tp[k].first;
-      if (expected_tp.get_id() == option_id) {
-        expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
-      }
-
-      const ndt::type &actual_tp = value.get_type();
-      if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
-        std::stringstream ss;
-        ss << "keyword \"" << kwd_tp[k].second << "\" does not match, ";
-        ss << "callable expected " << expected_tp << " but passed " << actual_tp;
-        throw std::invalid_argument(ss.str());
-      }
+      detail::check_kwd(m_ptr, k, value.get_type(), tp_vars);
     }
   }
 
-- 
2.43.0


From 068518dddf3efcde790609a8476428e8a4e851f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 28/81] fix: do not count dst as one of the required keyword
 arguments

---
 src/dynd/callable.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index a8c6651..51812fa 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -136,11 +136,13 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
   array dst;
 
   const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
+  size_t nspecial = 0;
   for (; j < nkwd; ++j, ++unordered_kwds) {
     intptr_t k = m_ptr->get_kwd_index(unordered_kwds->first);
 
     if (k == -1) {
       if (detail::is_special_kwd(dst, unordered_kwds->first, unordered_kwds->second)) {
+        ++nspecial;
       } else {
         std::stringstream ss;
         ss << "passed an unexpected keyword \"" << unordered_kwds->first << "\" to callable with type "
@@ -160,6 +162,9 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
   }
 
+  // "dst" and "dst_tp" are not keyword arguments of the callable
+  nkwd -= nspecial;
+
   // Validate the destination type, if it was provided
   if (!dst.is_null()) {
     if (!m_ptr->get_ret_type().match(dst.get_type(), tp_vars)) {
-- 
2.43.0


From 446f829d08dc2eee60df97d235c59cea015c7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:45 +0000
Subject: [PATCH 29/81] fix: leave a dispatcher unchanged when an ambiguous
 signature is refused

---
 include/dynd/dispatcher.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dynd/dispatcher.hpp b/include/dynd/dispatcher.hpp
index a78623d..649afae 100644
--- a/include/dynd/dispatcher.hpp
+++ b/include/dynd/dispatcher.hpp
@@ -180,9 +180,7 @@ public:
 
   template <typename Iterator>
   void assign(Iterator begin, Iterator end) {
-    m_children.resize(end - begin);
-
-    std::vector<std::vector<size_t>> edges(m_children.size());
+    std::vector<std::vector<size_t>> edges(end - begin);
     for (size_t i = 0; i < edges.size(); ++i) {
       const auto &f_i = begin[i];
       std::array<ndt::type, N> tp_i =
@@ -223,7 +221,9 @@ public:
       }
     }
 
-    topological_sort(begin, end, edges, m_children.begin());
+    std::vector<T> children(edges.size());
+    topological_sort(begin, end, edges, children.begin());
+    m_children = std::move(children);
 
     //    m_map.clear();
   }
-- 
2.43.0


From 99f20153ec0bcee40cec1dc638f7c699dd1b6070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 30/81] fix: check the declared arguments of a callable with a
 variable number of arguments

---
 src/dynd/callable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 51812fa..55ce430 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -56,7 +56,7 @@ void nd::detail::check_narg(const base_callable *self, size_t narg) {
 
 void nd::detail::check_arg(const base_callable *self, intptr_t i, const ndt::type &actual_tp,
                            const char *DYND_UNUSED(actual_arrmeta), std::map<std::string, ndt::type> &tp_vars) {
-  if (self->is_arg_variadic()) {
+  if (self->is_arg_variadic() && i >= static_cast<intptr_t>(self->get_narg())) {
     return;
   }
 
@@ -92,7 +92,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
                              const pair<const char *, array> *unordered_kwds) const {
   std::map<std::string, ndt::type> tp_vars;
 
-  if (!m_ptr->is_arg_variadic() && (narg < m_ptr->get_narg())) {
+  if (narg < m_ptr->get_narg()) {
     std::stringstream ss;
     ss << "callable expected " << m_ptr->get_narg() << " positional arguments, but received " << narg;
     throw std::invalid_argument(ss.str());
-- 
2.43.0


From 692a293d68eb611f472cc23bc75151c9d59132b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 31/81] fix: the Bytes kind matches fixed_bytes types

---
 include/dynd/types/bytes_kind_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/types/bytes_kind_type.hpp b/include/dynd/types/bytes_kind_type.hpp
index 3982f70..74e7810 100644
--- a/include/dynd/types/bytes_kind_type.hpp
+++ b/include/dynd/types/bytes_kind_type.hpp
@@ -15,7 +15,7 @@ namespace ndt {
     bytes_kind_type(type_id_t id) : base_type(id, 0, 1, type_flag_symbolic, 0, 0, 0) {}
 
     bool match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-      return candidate_tp.get_base_id() == bytes_kind_id;
+      return candidate_tp.get_base_id() == bytes_kind_id || candidate_tp.get_base_id() == fixed_bytes_kind_id;
     }
 
     void print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From 9dc71dcfb42977a276c5cdf0627aea191c359dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 32/81] fix: substituting into a callable type with keywords
 dereferenced a null buffer

---
 src/dynd/types/callable_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/callable_type.cpp b/src/dynd/types/callable_type.cpp
index a8fe438..d156b3b 100644
--- a/src/dynd/types/callable_type.cpp
+++ b/src/dynd/types/callable_type.cpp
@@ -230,7 +230,7 @@ nd::buffer ndt::callable_type::get_type_constructor_args() const {
     reinterpret_cast<ndt::type *>(callable_args.data())[0] = get_return_type();
     reinterpret_cast<ndt::type *>(callable_args.data())[1] = get_pos_tuple();
   } else {
-    nd::buffer callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
+    callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
         {ndt::make_type<ndt::tuple_type>(
              {ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>()}),
          ndt::make_type<ndt::struct_type>()}));
-- 
2.43.0


From 2a347ace630f1d494fe179867eca2bcb289f584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 33/81] fix: infinite parts of a complex number do not overflow

---
 include/dynd/assignment.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index cad1672..cf758fc 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -198,8 +198,10 @@ check_cast(ArgType s, inexact_check_t DYND_UNUSED(check)) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
@@ -442,7 +444,8 @@ std::enable_if_t<is_floating_point<RetType>::value && is_complex<ArgType>::value
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max()) {
+  if (isfinite(s.real()) &&
+      (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -497,8 +500,10 @@ overflow_cast(ArgType s) {
   }
   return d;
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) &&
+       (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) &&
+       (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
-- 
2.43.0


From 9fe42070a898e0e71ef1db77fe196c390ffef7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 34/81] fix: assignment between types without a known
 conversion raises an error instead of recursing

---
 include/dynd/callables/assign_callable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 1247e0a..c034158 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -938,6 +938,12 @@ namespace nd {
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
+      if (dst_tp.get_id() != option_id && src_tp[0].get_id() != option_id) {
+        // There is nothing left to unwrap, so no assignment between these types is known
+        std::stringstream ss;
+        ss << "cannot assign from " << src_tp[0] << " to " << dst_tp;
+        throw type_error(ss.str());
+      }
 
       ndt::type val_dst_tp =
           dst_tp.get_id() == option_id ? dst_tp.extended<ndt::option_type>()->get_value_type() : dst_tp;
-- 
2.43.0


From a0b2e808415476d0d68f939fea2aa0b6caee583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 35/81] fix: string to option assignment adds only the call
 graph nodes it uses

---
 include/dynd/callables/assign_callable.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index c034158..6540dee 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -630,7 +630,12 @@ namespace nd {
       case string_id:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                            const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) { kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta); });
+                           const char *const *src_arrmeta) {
+          kb.pass();
+          kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta);
+        });
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
         break;
       default:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
@@ -652,13 +657,13 @@ namespace nd {
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, src_arrmeta);
           ckb_offset = kb.size();
         });
+        // The adaptor's two children
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
+        assign_na->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         break;
       }
 
-      assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
-                      kwds, tp_vars);
-      assign_na->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
-
       return dst_tp;
     }
   };
-- 
2.43.0


From 0381e69c9cc5ff89dea127f7589e32dfc3f4e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 36/81] fix: assign_na_builtin handles uint32, as
 is_avail_builtin does

---
 src/dynd/types/option_type.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ed93fdb..6ced891 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -25,6 +25,9 @@ void dynd::assign_na_builtin(type_id_t value_id, char *data) {
   case int32_id:
     *reinterpret_cast<int32_t *>(data) = DYND_INT32_NA;
     return;
+  case uint32_id:
+    *reinterpret_cast<uint32_t *>(data) = DYND_UINT32_NA;
+    return;
   case int64_id:
     *reinterpret_cast<int64_t *>(data) = DYND_INT64_NA;
     return;
-- 
2.43.0


From fc9a533952f7e7333b28bf9849abaf2ebdd9d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 37/81] fix: option to option assignment of more elements than
 one buffer chunk reads every chunk of the source

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 78bcd5b..3d60146 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -792,19 +792,19 @@ namespace nd {
         kernel_strided_t dst_assign_na_fn = dst_assign_na->get_function<kernel_strided_t>();
         // Process in chunks using the dynd default buffer size
         bool1 missing[DYND_BUFFER_CHUNK_SIZE];
+        char *src_copy = src[0];
         while (count > 0) {
           size_t chunk_size = std::min(count, (size_t)DYND_BUFFER_CHUNK_SIZE);
           count -= chunk_size;
-          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, src, src_stride, chunk_size);
+          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, &src_copy, src_stride, chunk_size);
           void *missing_ptr = missing;
-          char *src_copy = src[0];
           do {
             // Process a run of available values
             void *next_missing_ptr = memchr(missing_ptr, 1, chunk_size);
             if (!next_missing_ptr) {
               value_assign_fn(value_assign, dst, dst_stride, &src_copy, src_stride, chunk_size);
               dst += chunk_size * dst_stride;
-              src += chunk_size * src_stride[0];
+              src_copy += chunk_size * src_stride[0];
               break;
             } else if (next_missing_ptr > missing_ptr) {
               size_t segment_size = (char *)next_missing_ptr - (char *)missing_ptr;
-- 
2.43.0


From ad7e0455a6e456aa850e1e2d5094ae190b8e4166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 38/81] fix: missing value words assigned to an optional bool
 are NA, as for the other option types

---
 include/dynd/kernels/assignment_kernels.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 3d60146..0ff7041 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -837,7 +837,11 @@ namespace nd {
     struct DYND_API string_to_option_bool_ck : nd::base_strided_kernel<string_to_option_bool_ck, 1> {
       void single(char *dst, char *const *src) {
         const string *std = reinterpret_cast<string *>(src[0]);
-        *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        if (parse_na(std->begin(), std->end())) {
+          assign_na_builtin(bool_id, dst);
+        } else {
+          *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        }
       }
     };
 
-- 
2.43.0


From 0bca2e43988e59e865abc07715265e191aabb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 39/81] fix: functions of optional values store into a
 destination of the optional type, and refuse one that cannot hold NA

---
 include/dynd/callables/forward_na_callable.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/forward_na_callable.hpp b/include/dynd/callables/forward_na_callable.hpp
index 1cd5f5f..6d8279a 100644
--- a/include/dynd/callables/forward_na_callable.hpp
+++ b/include/dynd/callables/forward_na_callable.hpp
@@ -60,9 +60,19 @@ namespace nd {
         child = m_child.get();
       }
 
+      // The child computes the value underneath the option
+      ndt::type dst_value_tp = dst_tp;
+      if (dst_tp.get_id() == option_id) {
+        dst_value_tp = dst_tp.extended<ndt::option_type>()->get_value_type();
+      } else if (!dst_tp.is_symbolic()) {
+        std::stringstream ss;
+        ss << "cannot store a result that may be NA in a destination of type " << dst_tp;
+        throw std::invalid_argument(ss.str());
+      }
+
       ndt::type res_value_tp =
-          child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, 2, src_value_tp,
-                         nkwd, kwds, tp_vars);
+          child->resolve(this, nullptr, cg, dst_value_tp.is_symbolic() ? child->get_ret_type() : dst_value_tp, 2,
+                         src_value_tp, nkwd, kwds, tp_vars);
 
       for (index_t i : std::array<index_t, sizeof...(I)>({I...})) {
         is_na->resolve(this, nullptr, cg, ndt::make_type<bool>(), 1, src_tp + i, 0, nullptr, tp_vars);
-- 
2.43.0


From 01b8b6a255d4fd1672691ad26e9754cb93b931be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 40/81] fix: parsing an unsigned integer detects overflow
 exactly, so that text too large for the type is refused rather than wrapped

---
 include/dynd/parse_util.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index dec3e89..86970d5 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -924,21 +924,23 @@ std::enable_if_t<is_boolean<T>::value, T> parse(const char *begin, const char *e
 template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
-  T result = 0, prev_result = 0;
+  const T max_value = std::numeric_limits<T>::max();
+  T result = 0;
   if (begin == end) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
   }
   while (begin < end) {
     char c = *begin;
     if ('0' <= c && c <= '9') {
-      result = (result * 10u) + static_cast<T>(c - '0');
-      if (result < prev_result) {
+      T digit = static_cast<T>(c - '0');
+      if (result > static_cast<T>((max_value - digit) / 10u)) {
         std::stringstream ss;
         ss << "overflow converting string ";
         ss.write(begin, end - begin);
         ss << " to " << ndt::make_type<T>();
         throw std::out_of_range(ss.str());
       }
+      result = static_cast<T>(result * 10u + digit);
     } else {
       if (c == '.') {
         // Accept ".", ".0" with trailing decimal zeros as well
@@ -971,19 +973,17 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
             exponent = (10 * exponent) + (*begin++ - '0');
           }
           if (begin == end) {
-            prev_result = result;
             // Apply the exponent in a naive way, but with
             // overflow checking
             for (int i = 0; i < exponent; ++i) {
-              result = result * 10u;
-              if (result < prev_result) {
+              if (result > static_cast<T>(max_value / 10u)) {
                 std::stringstream ss;
                 ss << "overflow converting string ";
                 ss.write(begin, end - begin);
                 ss << " to " << ndt::make_type<T>();
                 throw std::out_of_range(ss.str());
               }
-              prev_result = result;
+              result = static_cast<T>(result * 10u);
             }
             return result;
           }
@@ -996,7 +996,6 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
       throw std::invalid_argument(ss.str());
     }
     ++begin;
-    prev_result = result;
   }
 
   return result;
-- 
2.43.0


From 7ccd7dcd506a44b849abb639ffc7b6ac417d763b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 41/81] fix: a text without digits is not parsed as the integer
 zero

---
 include/dynd/parse_util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 86970d5..84a372f 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -925,6 +925,7 @@ template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
   const T max_value = std::numeric_limits<T>::max();
+  const char *saved_begin = begin;
   T result = 0;
   if (begin == end) {
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
@@ -942,7 +943,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
       }
       result = static_cast<T>(result * 10u + digit);
     } else {
-      if (c == '.') {
+      if (c == '.' && begin != saved_begin) {
         // Accept ".", ".0" with trailing decimal zeros as well
         ++begin;
         while (begin < end && *begin == '0') {
@@ -951,7 +952,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
         if (begin == end) {
           break;
         }
-      } else if (c == 'e' || c == 'E') {
+      } else if ((c == 'e' || c == 'E') && begin != saved_begin) {
         // Accept "1e5", "1e+5" integers with a positive exponent,
         // a subset of floating point syntax. Note that "1.2e1"
         // is not accepted as the value 12 by this code.
-- 
2.43.0


From 7e564bfc31ed25eb023c82c570ca6129b7566b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 42/81] fix: parsing a floating point number does not read past
 the end of the text

---
 include/dynd/parse_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 84a372f..79c34cc 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1070,9 +1070,11 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
   }
 
   // TODO: use http://www.netlib.org/fp/dtoa.c
+  // strto needs a terminated string
+  std::string s(begin, end);
   char *end_ptr;
-  T value = strto<T>(begin, &end_ptr);
-  if (end_ptr - begin != end - begin) {
+  T value = strto<T>(s.c_str(), &end_ptr);
+  if (s.empty() || end_ptr != s.c_str() + s.size()) {
     std::stringstream ss;
     ss << "parse error converting string ";
     ss.write(begin, end - begin);
-- 
2.43.0


From 70fc049cc297d2814fb00ac5ac4ebd72e16fb11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 43/81] fix: a number in a JSON string with escapes is parsed
 from the unescaped text

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 79c34cc..3cecffb 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1413,7 +1413,7 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
       } else {
         std::string s;
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
+        string_to_number(out_data, tp.get_id(), s.data(), s.data() + s.size(), ectx->errmode);
       }
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
-- 
2.43.0


From da9b189f10d13fa0426785ef504cbcc8211b3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 44/81] fix: a missing value word in a JSON string is not
 stored in a number that is not optional

---
 include/dynd/parse_util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 3cecffb..73dfded 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1408,6 +1408,9 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
   } else if (parse_doublequote_string_no_ws(begin, end, nbegin, nend, escaped)) {
     // Interpret the data inside the string as an int
     try {
+      if (!option && parse_na(nbegin, nend)) {
+        raise_string_cast_error(tp, nbegin, nend);
+      }
       if (!escaped) {
         string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
       } else {
-- 
2.43.0


From 866f09cf45ab9da3b5e828d353f3830a27322836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 45/81] fix: resizing a short string or bytes replaces its size
 instead of combining it with the old one

---
 include/dynd/types/sso_bytestring.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..c13a71a 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -32,6 +32,11 @@ protected:
   char *sso_data() { return reinterpret_cast<char *>(this); }
   const char *sso_data() const { return reinterpret_cast<const char *>(this); }
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
+  /** Sets the size byte, leaving the data bytes as they are */
+  void sso_set_size(size_t size) {
+    m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL) |
+                                  (static_cast<uint64_t>(size) << 56));
+  }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
       m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
@@ -180,7 +185,7 @@ public:
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      sso_set_size(new_size);
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From 95408afd68dc6d14a9a7abb8e3ea4c37e3b68985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 46/81] fix: a string or bytes can be assigned from and
 extended by itself or a part of itself

---
 include/dynd/types/sso_bytestring.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index c13a71a..06b775b 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -39,10 +39,11 @@ protected:
   }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
+      // The data may be part of this object
+      memmove(sso_data(), data, size);
       // Zero out the rest of the bytes for a unique representation
       memset(sso_data() + size, 0, 15u - size);
+      sso_set_size(size);
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -121,7 +122,7 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
@@ -151,8 +152,11 @@ public:
 
   void append(const char *bytestr, size_t bssize) {
     size_t old_size = size();
+    // The bytes may be part of this string, which moves when it grows
+    bool inside = data() <= bytestr && bytestr < data() + old_size;
+    size_t offset = inside ? bytestr - data() : 0;
     resize_grow(old_size + bssize);
-    DYND_MEMCPY(data() + old_size, bytestr, bssize);
+    DYND_MEMCPY(data() + old_size, inside ? data() + offset : bytestr, bssize);
   }
 
   void clear() {
-- 
2.43.0


From f2b3fed46dc5433c7a42c7bc6e397ee2ae6ff311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 47/81] fix: searching backwards for one character looks at the
 whole string

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 60111e7..accafd5 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -59,7 +59,7 @@ namespace detail {
   template <class match_handler>
   void string_search_1char_reverse(const char *haystack, size_t n, char needle, match_handler &handle_match)
   {
-    for (size_t i = n - 1; i <= 0; --i) {
+    for (size_t i = n; i-- > 0;) {
       if (haystack[i] == needle) {
         if (handle_match(i)) {
           return;
-- 
2.43.0


From 1bd521336e1685f8925d7b1ff44098c74fa341f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 48/81] fix: a string search does not skip an occurrence that
 directly follows another

---
 include/dynd/string_search.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index accafd5..f7fb540 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -147,6 +147,7 @@ namespace detail {
             return;
           }
           i = i + mlast;
+          continue;
         }
         /* miss: check if next character is part of pattern */
         if (i < w && !bloom.has_char(ss[i + 1])) {
-- 
2.43.0


From 349ba5f79500d2d5d73ce3d07cf723eab3be2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 49/81] fix: a fixed_string that exactly fills its destination
 is not refused

---
 include/dynd/kernels/assignment_kernels.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 0ff7041..813795f 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1329,7 +1329,8 @@ namespace nd {
           }
         }
         if (src_copy < src_end) {
-          if (m_overflow_check) {
+          // The source may be terminated right where the destination is full
+          if (m_overflow_check && next_fn(const_cast<const char *&>(src_copy), src_end) != 0) {
             throw std::runtime_error("Input string is too large to convert to "
                                      "destination fixed-size string");
           }
-- 
2.43.0


From 264d91d0b57cc0ec14071b7a4ba5fd9ff67d2550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 50/81] fix: decoding invalid UTF-8 without errors steps over
 the invalid octets, so that it ends

---
 src/dynd/string_encodings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..83d93a4 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,8 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    // Not a lead octet, step over it
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
@@ -156,9 +158,11 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
         ++it;
         return cp;
       } else {
+        ++it;
         return ERROR_SUBSTITUTE_CODEPOINT;
       }
     } else {
+      ++it;
       return ERROR_SUBSTITUTE_CODEPOINT;
     }
   } else {
-- 
2.43.0


From 42e0bc23de5f8679d1c10a37a00d897b208f5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 51/81] fix: decoding UTF-16 that ends in half of a surrogate
 pair does not read past the end

---
 src/dynd/string_encodings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 83d93a4..3e86a56 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -242,7 +242,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From c739da03ab9e59f01df6cb0cf78c5c453ce0312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 52/81] fix: assignments and take keep the source types they
 use after the call that resolves them returns

---
 include/dynd/callables/assign_callable.hpp    | 22 +++++++++++++------
 .../dynd/callables/take_dispatch_callable.hpp | 17 +++++++-------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 6540dee..b620bcc 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -80,6 +80,8 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      // The array of source types does not outlive this call
+      ndt::type src0_tp = src_tp[0];
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
       switch (error_mode) {
       case assign_error_default:
@@ -87,7 +89,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -95,7 +97,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src0_tp,
                                                                                            src_arrmeta[0]);
         });
         break;
@@ -103,7 +105,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src0_tp,
                                                                                              src_arrmeta[0]);
         });
         break;
@@ -111,7 +113,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src0_tp,
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -282,12 +284,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      // The array of source types does not outlive this call
+      ndt::type src0_tp = src_tp[0];
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
-        const ndt::fixed_string_type *src_fs = src_tp[0].extended<ndt::fixed_string_type>();
+        const ndt::fixed_string_type *src_fs = src0_tp.extended<ndt::fixed_string_type>();
         kb.emplace_back<
             detail::assignment_kernel<ndt::fixed_string_type, ndt::fixed_string_type, assign_error_nocheck>>(
             kernreq, get_next_unicode_codepoint_function(src_fs->get_encoding(), error_mode),
@@ -312,11 +316,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      // The array of source types does not outlive this call
+      ndt::type src0_tp = src_tp[0];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
         kb.emplace_back<detail::assignment_kernel<string, int8_t, assign_error_nocheck>>(
-            kernreq, dst_tp, src_tp[0].get_id(), dst_arrmeta);
+            kernreq, dst_tp, src0_tp.get_id(), dst_arrmeta);
       });
 
       return dst_tp;
@@ -417,12 +423,14 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      // The array of source types does not outlive this call
+      ndt::type src0_tp = src_tp[0];
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *src_arrmeta) {
-        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src_tp[0],
+        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src0_tp,
                                                                                         src_arrmeta[0], error_mode);
       });
 
diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 0e1326c..3603e75 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -90,6 +90,7 @@ namespace nd {
         resolved_dst_tp = ndt::make_fixed_dim(src_tp[1].get_dim_size(NULL, NULL), src0_element_tp);
       }
 
+      ndt::type src0_tp = src_tp[0], src1_tp = src_tp[1];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -109,17 +110,17 @@ namespace nd {
         intptr_t index_dim_size;
         ndt::type src0_el_tp, index_el_tp;
         const char *src0_el_meta, *index_el_meta;
-        if (!src_tp[0].get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
+        if (!src0_tp.get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
                                       &src0_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << src_tp[0];
+          ss << "indexed take arrfunc: could not process type " << src0_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-        if (!src_tp[1].get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
+        if (!src1_tp.get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
                                       &index_el_meta)) {
           std::stringstream ss;
-          ss << "take arrfunc: could not process type " << src_tp[1];
+          ss << "take arrfunc: could not process type " << src1_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -167,17 +168,17 @@ namespace nd {
           intptr_t index_dim_size;
           ndt::type src0_el_tp, index_el_tp;
           const char *src0_el_meta, *index_el_meta;
-          if (!src_tp[0].get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
+          if (!src0_tp.get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
                                         &src0_el_meta)) {
             std::stringstream ss;
-            ss << "indexed take arrfunc: could not process type " << src_tp[0];
+            ss << "indexed take arrfunc: could not process type " << src0_tp;
             ss << " as a strided dimension";
             throw type_error(ss.str());
           }
-          if (!src_tp[1].get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
+          if (!src1_tp.get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
                                         &index_el_meta)) {
             std::stringstream ss;
-            ss << "take arrfunc: could not process type " << src_tp[1];
+            ss << "take arrfunc: could not process type " << src1_tp;
             ss << " as a strided dimension";
             throw type_error(ss.str());
           }
-- 
2.43.0


From 95391f267fcce06f8e07d7d0834f9db4d9346410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 53/81] fix: searching a string for one character does not read
 past its end

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index f7fb540..39b5707 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -43,7 +43,7 @@ namespace detail {
     else {
       const char *s = haystack;
       while (s < haystack + n) {
-        void *candidate = memchr((void *)s, needle, n);
+        void *candidate = memchr((void *)s, needle, haystack + n - s);
         if (candidate == NULL) {
           return;
         }
-- 
2.43.0


From dafaacd157e3dc12b9a83ae51b40c6926bcaf73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 54/81] fix: a pair of escaped surrogates in a JSON string is
 one character

---
 src/dynd/parse_util.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index 6b4ca88..3c0d32b 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -175,6 +175,18 @@ void dynd::unescape_string(const char *strbegin, const char *strend, std::string
             cp = '?';
           }
         }
+        // A pair of surrogates is one code point
+        if (0xd800 <= cp && cp < 0xdc00 && strend - strbegin >= 6 && strbegin[0] == '\\' && strbegin[1] == 'u') {
+          uint32_t low = 0;
+          for (int i = 2; i < 6; ++i) {
+            char d = strbegin[i];
+            low = low * 16 + (d <= '9' ? d - '0' : (d | 0x20) - 'a' + 10);
+          }
+          if (0xdc00 <= low && low < 0xe000) {
+            cp = 0x10000 + ((cp - 0xd800) << 10) + (low - 0xdc00);
+            strbegin += 6;
+          }
+        }
         append_utf8_codepoint(cp, out);
         break;
       }
-- 
2.43.0


From af9bc990101f8297514a4fc8a489f0091aa90b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 55/81] fix: floating point numbers are written to JSON with
 all their digits

---
 src/dynd/json_formatter.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index 9562ef1..bfec8d7 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -3,6 +3,10 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <cmath>
+#include <limits>
+#include <sstream>
+
 #include <dynd/json_formatter.hpp>
 #include <dynd/callable.hpp>
 #include <dynd/option.hpp>
@@ -81,7 +85,32 @@ static void format_json_bool(output_data &out, const ndt::type &dt, const char *
   }
 }
 
+// Writes a floating point number with as many digits as are needed to read the same number back
+template <typename T>
+static void format_json_float(output_data &out, T value) {
+  for (int digits = std::numeric_limits<T>::digits10;; ++digits) {
+    stringstream ss;
+    ss.precision(digits);
+    ss << value;
+    T result = 0;
+    if (digits < std::numeric_limits<T>::max_digits10) {
+      ss >> result;
+    }
+    if (result == value || digits == std::numeric_limits<T>::max_digits10) {
+      out.write(ss.str());
+      return;
+    }
+  }
+}
+
 static void format_json_number(output_data &out, const ndt::type &dt, const char *arrmeta, const char *data) {
+  if (dt.get_id() == float32_id && std::isfinite(*reinterpret_cast<const float *>(data))) {
+    format_json_float(out, *reinterpret_cast<const float *>(data));
+    return;
+  } else if (dt.get_id() == float64_id && std::isfinite(*reinterpret_cast<const double *>(data))) {
+    format_json_float(out, *reinterpret_cast<const double *>(data));
+    return;
+  }
   stringstream ss;
   dt.print_data(ss, arrmeta, data);
   out.write(ss.str());
-- 
2.43.0


From 29af821386e4accb9226177543d9bf0fcfa8858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 56/81] fix: a number that is not finite is written to JSON in
 the form the parser reads, not as malformed JSON

---
 src/dynd/json_formatter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index bfec8d7..f83dbd7 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -88,6 +88,11 @@ static void format_json_bool(output_data &out, const ndt::type &dt, const char *
 // Writes a floating point number with as many digits as are needed to read the same number back
 template <typename T>
 static void format_json_float(output_data &out, T value) {
+  if (!std::isfinite(value)) {
+    // JSON has no numbers for these, the parser reads them from strings
+    out.write(std::string(std::isnan(value) ? "\"nan\"" : value > 0 ? "\"inf\"" : "\"-inf\""));
+    return;
+  }
   for (int digits = std::numeric_limits<T>::digits10;; ++digits) {
     stringstream ss;
     ss.precision(digits);
@@ -104,10 +109,10 @@ static void format_json_float(output_data &out, T value) {
 }
 
 static void format_json_number(output_data &out, const ndt::type &dt, const char *arrmeta, const char *data) {
-  if (dt.get_id() == float32_id && std::isfinite(*reinterpret_cast<const float *>(data))) {
+  if (dt.get_id() == float32_id) {
     format_json_float(out, *reinterpret_cast<const float *>(data));
     return;
-  } else if (dt.get_id() == float64_id && std::isfinite(*reinterpret_cast<const double *>(data))) {
+  } else if (dt.get_id() == float64_id) {
     format_json_float(out, *reinterpret_cast<const double *>(data));
     return;
   }
-- 
2.43.0


From 6cdeea77624860271c79aaad80341d1ed82415b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 57/81] fix: growing POD memory that does not fit its chunk
 copies what was allocated, not a length read from the new chunk

---
 include/dynd/memblock/pod_memory_block.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 0165dcf..4318e39 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -97,10 +97,11 @@ namespace nd {
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
         char *old_current = inout_begin, *old_end = *inout_end;
+        intptr_t old_size_bytes = *inout_end - inout_begin;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, *inout_end - inout_begin);
+        memcpy(m_memory_begin, inout_begin, old_size_bytes);
         end = m_memory_begin + size_bytes;
         m_memory_current = end;
         inout_begin = m_memory_begin;
-- 
2.43.0


From 1e246286beabfa418ea473bf18ae72c780d03dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 58/81] fix: growing zero initialised memory in place zero
 initialises what is new

---
 include/dynd/memblock/zeroinit_memory_block.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index d92e1d9..1061781 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -97,7 +97,6 @@ namespace nd {
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
         // If it fits, just adjust the current allocation point
-        m_memory_current = end;
         // Zero-initialize any newly allocated memory
         if (end > *inout_end) {
           memset(*inout_end, 0, end - *inout_end);
-- 
2.43.0


From cc3d8b45b51bb51119a95b759e2316883fd0e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 59/81] fix: resizing memory of objects moves and zeroes the
 elements it should, also when they are not first in their chunk or have no
 size

---
 include/dynd/memblock/objectarray_memory_block.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 15c7e9f..5181aad 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -107,18 +107,21 @@ namespace nd {
 
     char *resize(char *previous_allocated, size_t count) {
       memory_chunk *mc = &m_memory_handles.back();
-      size_t previous_index = (previous_allocated - mc->memory) / m_stride;
+      // Elements without data all have the same address
+      size_t previous_index = (m_stride == 0) ? 0 : (previous_allocated - mc->memory) / m_stride;
       size_t previous_count = mc->used_count - previous_index;
       char *result = previous_allocated;
 
       if (mc->capacity_count - previous_index < count) {
         append_memory(std::max(m_total_allocated_count, count));
         memory_chunk *new_mc = &m_memory_handles.back();
+        // Adding to the vector may have moved the chunk being resized
+        mc = new_mc - 1;
         // Move the old memory to the newly allocated block
         if (previous_count > 0) {
           // Subtract the previously used memory from the old chunk's count
           mc->used_count -= previous_count;
-          memcpy(new_mc->memory, previous_allocated, previous_count);
+          memcpy(new_mc->memory, previous_allocated, m_stride * previous_count);
           // If the old memory only had the memory being resized,
           // free it completely.
           if (previous_allocated == mc->memory) {
@@ -146,7 +149,7 @@ namespace nd {
         // Zero-init the new memory
         intptr_t new_count = count - (intptr_t)previous_count;
         if (new_count > 0) {
-          memset(mc->memory + m_stride * previous_count, 0, m_stride * new_count);
+          memset(result + m_stride * previous_count, 0, m_stride * new_count);
         }
       } else {
         // TODO: Add a default data constructor to base_type
-- 
2.43.0


From d655ff477398775024a5d9d1266a8eea4bbe13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 60/81] fix: resetting memory of objects destroys them with the
 arrmeta of the element, and also when there is one chunk

---
 include/dynd/memblock/objectarray_memory_block.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 5181aad..13e1775 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -169,16 +169,17 @@ namespace nd {
         // throw them all away except the last
         for (size_t i = 0, i_end = m_memory_handles.size() - 1; i != i_end; ++i) {
           memory_chunk &mc = m_memory_handles[i];
-          m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
+          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+          m_total_allocated_count -= mc.capacity_count;
           free(mc.memory);
         }
         m_memory_handles.front() = m_memory_handles.back();
         m_memory_handles.resize(1);
-        // Reset to zero used elements in the chunk
-        memory_chunk &mc = m_memory_handles.front();
-        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
-        mc.used_count = 0;
       }
+      // Reset to zero used elements in the chunk
+      memory_chunk &mc = m_memory_handles.front();
+      m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+      mc.used_count = 0;
     }
 
     void debug_print(std::ostream &o, const std::string &indent) {
-- 
2.43.0


From 33c99a084d1ed80c6eb286083e074625fa0989da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:06 +0000
Subject: [PATCH 61/81] fix: memory of objects keeps the arrmeta it destroys
 them with, as it may outlive the array it was made for

---
 .../memblock/objectarray_memory_block.hpp     | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 13e1775..52833ab 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -34,8 +34,8 @@ namespace nd {
    */
   class objectarray_memory_block : public base_memory_block {
     ndt::type m_dt;
-    size_t arrmeta_size;
-    const char *m_arrmeta;
+    /** Arrmeta of the default layout, which is the layout of the elements; the block may outlive the caller's */
+    char *m_arrmeta;
     intptr_t m_stride;
     size_t m_total_allocated_count;
     bool m_finalized;
@@ -43,9 +43,9 @@ namespace nd {
     std::vector<memory_chunk> m_memory_handles;
 
   public:
-    objectarray_memory_block(const ndt::type &dt, size_t arrmeta_size, const char *arrmeta, intptr_t stride,
-                             intptr_t initial_count)
-        : m_dt(dt), arrmeta_size(arrmeta_size), m_arrmeta(arrmeta), m_stride(stride), m_total_allocated_count(0),
+    objectarray_memory_block(const ndt::type &dt, size_t DYND_UNUSED(arrmeta_size), const char *DYND_UNUSED(arrmeta),
+                             intptr_t stride, intptr_t initial_count)
+        : m_dt(dt), m_arrmeta(NULL), m_stride(stride), m_total_allocated_count(0),
           m_finalized(false), m_memory_handles() {
       if ((dt.get_flags() & type_flag_destructor) == 0) {
         std::stringstream ss;
@@ -53,15 +53,22 @@ namespace nd {
         ss << " because it does not have a destructor, use a POD memory block instead";
         throw std::runtime_error(ss.str());
       }
+      m_arrmeta = reinterpret_cast<char *>(calloc(m_dt.get_arrmeta_size() + 1, 1));
+      if (m_arrmeta == NULL) {
+        throw std::bad_alloc();
+      }
+      m_dt.extended()->arrmeta_default_construct(m_arrmeta, false);
       append_memory(initial_count);
     }
 
     ~objectarray_memory_block() {
       for (size_t i = 0, i_end = m_memory_handles.size(); i != i_end; ++i) {
         memory_chunk &mc = m_memory_handles[i];
-        m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
         free(mc.memory);
       }
+      m_dt.extended()->arrmeta_destruct(m_arrmeta);
+      free(m_arrmeta);
     }
 
     /**
@@ -139,7 +146,7 @@ namespace nd {
           mc->used_count += (count - previous_count);
         } else {
           // Call the destructor on the elements no longer used
-          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, previous_allocated + m_stride * count,
+          m_dt.extended()->data_destruct_strided(m_arrmeta, previous_allocated + m_stride * count,
                                                  m_stride, previous_count - count);
           mc->used_count -= (previous_count - count);
         }
@@ -169,7 +176,7 @@ namespace nd {
         // throw them all away except the last
         for (size_t i = 0, i_end = m_memory_handles.size() - 1; i != i_end; ++i) {
           memory_chunk &mc = m_memory_handles[i];
-          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+          m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
           m_total_allocated_count -= mc.capacity_count;
           free(mc.memory);
         }
@@ -178,7 +185,7 @@ namespace nd {
       }
       // Reset to zero used elements in the chunk
       memory_chunk &mc = m_memory_handles.front();
-      m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+      m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
       mc.used_count = 0;
     }
 
-- 
2.43.0


From 6a34231cddfdf1058c8266c748c818c892506292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:19 +0000
Subject: [PATCH 62/81] fix: the largest floating point number is written to
 JSON with the digits it needs

---
 src/dynd/json_formatter.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index f83dbd7..0d52220 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -98,10 +98,8 @@ static void format_json_float(output_data &out, T value) {
     ss.precision(digits);
     ss << value;
     T result = 0;
-    if (digits < std::numeric_limits<T>::max_digits10) {
-      ss >> result;
-    }
-    if (result == value || digits == std::numeric_limits<T>::max_digits10) {
+    // Reading fails, with the largest number as the result, if the digits were rounded up beyond it
+    if (digits == std::numeric_limits<T>::max_digits10 || (stringstream(ss.str()) >> result && result == value)) {
       out.write(ss.str());
       return;
     }
-- 
2.43.0


From dc1d2a9483bb3a738a361ae80616807a77a3be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 63/81] fix: a missing value word with escapes in a JSON string
 is not stored in a number that is not optional

---
 include/dynd/parse_util.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 73dfded..c2280ff 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1408,16 +1408,16 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
   } else if (parse_doublequote_string_no_ws(begin, end, nbegin, nend, escaped)) {
     // Interpret the data inside the string as an int
     try {
+      std::string s;
+      if (escaped) {
+        unescape_string(nbegin, nend, s);
+        nbegin = s.data();
+        nend = nbegin + s.size();
+      }
       if (!option && parse_na(nbegin, nend)) {
         raise_string_cast_error(tp, nbegin, nend);
       }
-      if (!escaped) {
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
-      } else {
-        std::string s;
-        unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), s.data(), s.data() + s.size(), ectx->errmode);
-      }
+      string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
     } catch (const dynd::dynd_exception &e) {
-- 
2.43.0


From d623963f62f1951e754c3b2e6f2170d832852fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 64/81] fix: comparing tuples and structs checks the number of
 fields, uses each operand's own arrmeta and works on arrays

---
 include/dynd/callables/equal_callable.hpp     | 48 ++++++++++++-------
 include/dynd/callables/not_equal_callable.hpp | 48 ++++++++++++-------
 2 files changed, 64 insertions(+), 32 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index f3ef410..a0154f1 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -32,14 +32,22 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
+      if (src_tp[1].extended<ndt::tuple_type>()->get_field_count() != static_cast<intptr_t>(field_count)) {
+        std::stringstream ss;
+        ss << "cannot compare values with different numbers of fields, " << src_tp[0] << " and " << src_tp[1];
+        throw std::invalid_argument(ss.str());
+      }
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::vector<uintptr_t> arrmeta_offsets(field_count);
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t j = 0; j < 2; ++j) {
+        auto bsd = src_tp[j].extended<ndt::tuple_type>();
+        for (size_t i = 0; i < field_count; ++i) {
+          arrmeta_offsets[j].push_back(bsd->get_arrmeta_offsets()[i]);
+        }
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      cg.emplace_back([field_count, src0_arrmeta_offsets = arrmeta_offsets[0],
+                       src1_arrmeta_offsets = arrmeta_offsets[1]](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -60,9 +68,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,14 +96,22 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
+      if (src_tp[1].extended<ndt::struct_type>()->get_field_count() != static_cast<intptr_t>(field_count)) {
+        std::stringstream ss;
+        ss << "cannot compare values with different numbers of fields, " << src_tp[0] << " and " << src_tp[1];
+        throw std::invalid_argument(ss.str());
+      }
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::vector<uintptr_t> arrmeta_offsets(field_count);
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t j = 0; j < 2; ++j) {
+        auto bsd = src_tp[j].extended<ndt::struct_type>();
+        for (size_t i = 0; i < field_count; ++i) {
+          arrmeta_offsets[j].push_back(bsd->get_arrmeta_offsets()[i]);
+        }
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      cg.emplace_back([field_count, src0_arrmeta_offsets = arrmeta_offsets[0],
+                       src1_arrmeta_offsets = arrmeta_offsets[1]](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -116,9 +132,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 87ab76f..dba67e2 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -32,14 +32,22 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
+      if (src_tp[1].extended<ndt::tuple_type>()->get_field_count() != static_cast<intptr_t>(field_count)) {
+        std::stringstream ss;
+        ss << "cannot compare values with different numbers of fields, " << src_tp[0] << " and " << src_tp[1];
+        throw std::invalid_argument(ss.str());
+      }
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::vector<uintptr_t> arrmeta_offsets(field_count);
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t j = 0; j < 2; ++j) {
+        auto bsd = src_tp[j].extended<ndt::tuple_type>();
+        for (size_t i = 0; i < field_count; ++i) {
+          arrmeta_offsets[j].push_back(bsd->get_arrmeta_offsets()[i]);
+        }
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      cg.emplace_back([field_count, src0_arrmeta_offsets = arrmeta_offsets[0],
+                       src1_arrmeta_offsets = arrmeta_offsets[1]](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -60,9 +68,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,14 +96,22 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
+      if (src_tp[1].extended<ndt::struct_type>()->get_field_count() != static_cast<intptr_t>(field_count)) {
+        std::stringstream ss;
+        ss << "cannot compare values with different numbers of fields, " << src_tp[0] << " and " << src_tp[1];
+        throw std::invalid_argument(ss.str());
+      }
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::vector<uintptr_t> arrmeta_offsets(field_count);
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t j = 0; j < 2; ++j) {
+        auto bsd = src_tp[j].extended<ndt::struct_type>();
+        for (size_t i = 0; i < field_count; ++i) {
+          arrmeta_offsets[j].push_back(bsd->get_arrmeta_offsets()[i]);
+        }
       }
 
-      cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
+      cg.emplace_back([field_count, src0_arrmeta_offsets = arrmeta_offsets[0],
+                       src1_arrmeta_offsets = arrmeta_offsets[1]](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -116,9 +132,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + src0_arrmeta_offsets[i],
+                                              src_arrmeta[1] + src1_arrmeta_offsets[i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
-- 
2.43.0


From c20659f868ae2d05e97a20a4f5aca4fe4d29b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:45 +0000
Subject: [PATCH 65/81] fix: strings are ordered by code point also where char
 is signed

---
 include/dynd/kernels/total_order_kernel.hpp |  4 +---
 include/dynd/types/string_type.hpp          | 17 +++++++----------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/dynd/kernels/total_order_kernel.hpp b/include/dynd/kernels/total_order_kernel.hpp
index 23fb76c..f201546 100644
--- a/include/dynd/kernels/total_order_kernel.hpp
+++ b/include/dynd/kernels/total_order_kernel.hpp
@@ -33,9 +33,7 @@ namespace nd {
   template <>
   struct total_order_kernel<string, string> : base_strided_kernel<total_order_kernel<string, string>, 2> {
     void single(char *dst, char *const *src) {
-      *reinterpret_cast<int *>(dst) = std::lexicographical_compare(
-          reinterpret_cast<string *>(src[0])->begin(), reinterpret_cast<string *>(src[0])->end(),
-          reinterpret_cast<string *>(src[1])->begin(), reinterpret_cast<string *>(src[1])->end());
+      *reinterpret_cast<int *>(dst) = *reinterpret_cast<string *>(src[0]) < *reinterpret_cast<string *>(src[1]);
     }
   };
 
diff --git a/include/dynd/types/string_type.hpp b/include/dynd/types/string_type.hpp
index aff14c5..06117ff 100644
--- a/include/dynd/types/string_type.hpp
+++ b/include/dynd/types/string_type.hpp
@@ -42,21 +42,18 @@ public:
     return *this;
   }
 
+  /** Strings are ordered by code point, which is the order of their bytes as unsigned numbers */
   bool operator<(const string &rhs) const {
-    return std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
+    return std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end(), [](char lhs_byte, char rhs_byte) {
+      return static_cast<unsigned char>(lhs_byte) < static_cast<unsigned char>(rhs_byte);
+    });
   }
 
-  bool operator<=(const string &rhs) const {
-    return !std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
-  }
+  bool operator<=(const string &rhs) const { return !(rhs < *this); }
 
-  bool operator>=(const string &rhs) const {
-    return !std::lexicographical_compare(begin(), end(), rhs.begin(), rhs.end());
-  }
+  bool operator>=(const string &rhs) const { return !(*this < rhs); }
 
-  bool operator>(const string &rhs) const {
-    return std::lexicographical_compare(rhs.begin(), rhs.end(), begin(), end());
-  }
+  bool operator>(const string &rhs) const { return rhs < *this; }
 
   string operator+(const string &rhs) {
     string result;
-- 
2.43.0


From aef3f2381a4be6716b7818a74f47e95f61bdcb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:32 +0000
Subject: [PATCH 66/81] fix: binary_search of an empty array finds nothing, and
 a value of another type is refused instead of being read as the element type

---
 include/dynd/callables/binary_search_callable.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 5f5da11..4b46f71 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -22,6 +22,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
+      ndt::type element_tp = src_tp[0].extended<ndt::fixed_dim_type>()->get_element_type();
+      if (src_tp[1] != element_tp) {
+        std::stringstream ss;
+        ss << "cannot search for a value of type " << src_tp[1] << " among elements of type " << element_tp;
+        throw std::invalid_argument(ss.str());
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                          const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                          const char *const *src_arrmeta) {
@@ -29,11 +36,11 @@ namespace nd {
             kernreq, reinterpret_cast<const fixed_dim_type_arrmeta *>(src_arrmeta[0])->dim_size,
             reinterpret_cast<const fixed_dim_type_arrmeta *>(src_arrmeta[0])->stride);
 
-        const char *child_src_arrmeta[2] = {src_arrmeta[0], src_arrmeta[0]};
-        kb(kernreq | kernel_request_data_only, nullptr, nullptr, 2, child_src_arrmeta);
+        const char *element_arrmeta = src_arrmeta[0] + sizeof(fixed_dim_type_arrmeta);
+        const char *child_src_arrmeta[2] = {element_arrmeta, element_arrmeta};
+        kb(kernel_request_single, nullptr, nullptr, 2, child_src_arrmeta);
       });
 
-      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
       ndt::type child_src_tp[2] = {element_tp, element_tp};
 
       total_order->resolve(this, nullptr, cg, ndt::make_type<int>(), 2, child_src_tp, 0, NULL, tp_vars);
-- 
2.43.0


From 2e63230a0da16f12da5baa55bbe1858982ec95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:55 +0000
Subject: [PATCH 67/81] fix: sorting an array with a negative stride

---
 include/dynd/bytes.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/dynd/bytes.hpp b/include/dynd/bytes.hpp
index 519540c..453bcde 100644
--- a/include/dynd/bytes.hpp
+++ b/include/dynd/bytes.hpp
@@ -158,17 +158,20 @@ public:
     return *this;
   }
 
-  bool operator<(const strided_iterator &rhs) const { return m_data < rhs.m_data; }
+  // With a negative stride, what comes later has the lower address
+  bool operator<(const strided_iterator &rhs) const {
+    return m_stride < 0 ? rhs.m_data < m_data : m_data < rhs.m_data;
+  }
 
-  bool operator<=(const strided_iterator &rhs) const { return m_data <= rhs.m_data; }
+  bool operator<=(const strided_iterator &rhs) const { return !(rhs < *this); }
 
   bool operator==(const strided_iterator &rhs) const { return m_data == rhs.m_data; }
 
   bool operator!=(const strided_iterator &rhs) const { return m_data != rhs.m_data; }
 
-  bool operator>=(const strided_iterator &rhs) const { return m_data >= rhs.m_data; }
+  bool operator>=(const strided_iterator &rhs) const { return !(*this < rhs); }
 
-  bool operator>(const strided_iterator &rhs) const { return m_data > rhs.m_data; }
+  bool operator>(const strided_iterator &rhs) const { return rhs < *this; }
 
   std::ptrdiff_t operator-(strided_iterator rhs) { return (m_data - rhs.m_data) / m_stride; }
 
-- 
2.43.0


From 90ba6a1cbdc2aaf58c788bdaa05d44ad90b328f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:18 +0000
Subject: [PATCH 68/81] fix: equals_exact of var arrays of different sizes is
 false instead of an error

---
 src/dynd/array.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index b3180ae..7a46378 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -310,6 +310,9 @@ bool nd::array::equals_exact(const array &rhs) const {
   } else if (get_type().get_id() == var_dim_id) {
     // If there's a leading var dimension, convert it to strided and compare
     // (Note: this is an inefficient hack)
+    if (get_shape()[0] != rhs.get_shape()[0]) {
+      return false;
+    }
     ndt::type tp = ndt::make_fixed_dim(get_shape()[0], get_type().extended<ndt::base_dim_type>()->get_element_type());
     return nd::old_view(*this, tp).equals_exact(nd::old_view(rhs, tp));
   } else {
-- 
2.43.0


From b035131eb1bebf0230866715c5c1e2852720ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:59 +0000
Subject: [PATCH 69/81] fix: integer division checks the divisor for zero when
 it is unsigned, and does not trap on the lowest number by -1

needs_zero_check looked at the dividend's type twice, so a signed number
divided by an unsigned zero ended the process with SIGFPE and an unsigned one
divided by 0.0 raised an error. The lowest int32 or int64 divided by -1 ended
the process with SIGFPE as well; it wraps around now, as its negation does.
---
 include/dynd/kernels/arithmetic.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..e038421 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,7 +163,14 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
+  }
+
+  // The lowest number of a signed type divided by -1 is not held by the type, and traps on some processors.
+  template <typename ResultType, typename Arg0Type, typename Arg1Type>
+  bool overflows_division(Arg0Type a, Arg1Type b) {
+    return std::is_signed<ResultType>::value && static_cast<ResultType>(b) == static_cast<ResultType>(-1) &&
+           static_cast<ResultType>(a) == std::numeric_limits<ResultType>::min();
   }
 
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
@@ -176,6 +183,11 @@ namespace detail {
       if (b == 0) {                                                                                                    \
         throw dynd::zero_division_error("Integer division or modulo by zero.");                                        \
       }                                                                                                                \
+      typedef decltype(a OP b) result_type;                                                                            \
+      if (overflows_division<result_type>(a, b)) {                                                                     \
+        /* The quotient wraps around to the number itself, as its negation does, and the remainder is 0 */             \
+        return static_cast<result_type>((1 OP 1) == 0 ? static_cast<result_type>(0) : static_cast<result_type>(a));    \
+      }                                                                                                                \
       return a OP b;                                                                                                   \
     }                                                                                                                  \
   };                                                                                                                   \
-- 
2.43.0


From ca34fdc48db490e455c79ee378df90c2fa5dd517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:59 +0000
Subject: [PATCH 70/81] fix: arithmetic of scalars without an implementation
 recursed until the stack overflowed

The elementwise overload for two scalars called the dispatcher with the same
two scalars again. Without it the call raises an error.
---
 include/dynd/binary_arithmetic.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/dynd/binary_arithmetic.hpp b/include/dynd/binary_arithmetic.hpp
index b5a4b06..8e62daa 100644
--- a/include/dynd/binary_arithmetic.hpp
+++ b/include/dynd/binary_arithmetic.hpp
@@ -51,11 +51,6 @@ nd::callable make_binary_arithmetic() {
            ndt::make_type<ndt::any_kind_type>(),
            ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
                                             ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-           ndt::make_type<ndt::struct_type>())),
-       nd::get_elwise(ndt::make_type<ndt::callable_type>(
-           ndt::make_type<ndt::any_kind_type>(),
-           ndt::make_type<ndt::tuple_type>(
-               {ndt::make_type<ndt::scalar_kind_type>(), ndt::make_type<ndt::scalar_kind_type>()}),
            ndt::make_type<ndt::struct_type>()))});
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
-- 
2.43.0


From 6522776e1ba70e8fb73ef8f960da7544878cefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:59 +0000
Subject: [PATCH 71/81] fix: a += b and a /= b always raised an error

compound_add and compound_div declared two positional arguments while they
are called with one and a destination, and their elementwise overloads were
registered under the wrong types. compound_div checks integers for zero as
divide does.
---
 include/dynd/compound_arithmetic.hpp         | 18 +++++-------------
 include/dynd/kernels/compound_div_kernel.hpp | 13 +++++++++----
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/dynd/compound_arithmetic.hpp b/include/dynd/compound_arithmetic.hpp
index ea5f33b..28c9661 100644
--- a/include/dynd/compound_arithmetic.hpp
+++ b/include/dynd/compound_arithmetic.hpp
@@ -21,7 +21,7 @@ template <template <typename, typename> class KernelType, typename TypeSequence>
 nd::callable make_compound_arithmetic() {
   const ndt::type &tp = ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>(), ndt::make_type<ndt::any_kind_type>()}),
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>()}),
       ndt::make_type<ndt::struct_type>());
 
   auto dispatcher = nd::callable::make_all<KernelType, TypeSequence, TypeSequence>(
@@ -43,19 +43,11 @@ nd::callable make_compound_arithmetic() {
                                                    ndt::make_type<dynd::complex<double>>()};
 
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::scalar_kind_type>(),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-      ndt::make_type<ndt::struct_type>())));
-  dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::scalar_kind_type>()}),
-      ndt::make_type<ndt::struct_type>())));
+      ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::scalar_kind_type>()}), ndt::make_type<ndt::struct_type>())));
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
+      ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
       ndt::make_type<ndt::struct_type>())));
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
diff --git a/include/dynd/kernels/compound_div_kernel.hpp b/include/dynd/kernels/compound_div_kernel.hpp
index 3bb7668..f8b97f4 100644
--- a/include/dynd/kernels/compound_div_kernel.hpp
+++ b/include/dynd/kernels/compound_div_kernel.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <dynd/kernels/arithmetic.hpp>
 #include <dynd/kernels/base_kernel.hpp>
 #include <dynd/kernels/base_strided_kernel.hpp>
 
@@ -22,7 +23,8 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
-      *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src[0]);
+      *reinterpret_cast<dst_type *>(dst) = static_cast<dst_type>(dynd::detail::inline_divide<dst_type, src0_type>::f(
+          *reinterpret_cast<dst_type *>(dst), *reinterpret_cast<src0_type *>(src[0])));
     }
 
     void strided(char *dst, std::intptr_t dst_stride, char *const *src, const std::intptr_t *src_stride,
@@ -30,7 +32,8 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
-        *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src0);
+        *reinterpret_cast<dst_type *>(dst) = static_cast<dst_type>(dynd::detail::inline_divide<dst_type, src0_type>::f(
+          *reinterpret_cast<dst_type *>(dst), *reinterpret_cast<src0_type *>(src0)));
         dst += dst_stride;
         src0 += src0_stride;
       }
@@ -45,7 +48,8 @@ namespace nd {
 
     void single(char *dst, char *const *src) {
       *reinterpret_cast<dst_type *>(dst) =
-          static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src[0]));
+          static_cast<dst_type>(dynd::detail::inline_divide<dst_type, src0_type>::f(
+              *reinterpret_cast<dst_type *>(dst), *reinterpret_cast<src0_type *>(src[0])));
     }
 
     void strided(char *dst, std::intptr_t dst_stride, char *const *src, const std::intptr_t *src_stride,
@@ -54,7 +58,8 @@ namespace nd {
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
         *reinterpret_cast<dst_type *>(dst) =
-            static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src0));
+            static_cast<dst_type>(dynd::detail::inline_divide<dst_type, src0_type>::f(
+              *reinterpret_cast<dst_type *>(dst), *reinterpret_cast<src0_type *>(src0)));
         dst += dst_stride;
         src0 += src0_stride;
       }
-- 
2.43.0


From ed02d697d31ac00d29e60e1637e7e980c259e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:59 +0000
Subject: [PATCH 72/81] fix: take with an array of indices copied through the
 wrong kernel

The assignment was resolved before the kernel that calls it, so the call graph
was built in the wrong order: elements came out wrong and indices were not
checked.
---
 include/dynd/callables/take_dispatch_callable.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 3603e75..90988ab 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -74,15 +74,12 @@ namespace nd {
                                                            {ndt::make_type<ndt::any_kind_type>()})) {}
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
+                      const ndt::type &DYND_UNUSED(dst_tp), size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
 
       ndt::type src0_element_tp = src_tp[0].get_type_at_dimension(NULL, 1).get_canonical_type();
 
-      nd::array error_mode = assign_error_default;
-      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
-
       ndt::type resolved_dst_tp;
       if (src_tp[1].get_id() == var_dim_id) {
         resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
@@ -100,9 +97,9 @@ namespace nd {
 
         ndt::type dst_el_tp;
         const char *dst_el_meta;
-        if (!dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
+        if (!resolved_dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << dst_tp;
+          ss << "indexed take arrfunc: could not process type " << resolved_dst_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -141,6 +138,9 @@ namespace nd {
         kb(kernel_request_single, nullptr, dst_el_meta, 1, &src0_el_meta);
       });
 
+      nd::array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
+
       return resolved_dst_tp;
     }
 
-- 
2.43.0


From f08feebef06d95269a01168828d3f8e86cf9cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:59 +0000
Subject: [PATCH 73/81] fix: outer refuses dimensions which are not fixed and
 destinations of another type

Var dimensions made it loop without end or crash, and a destination of another
shape was written out of bounds.
---
 include/dynd/callables/outer_callable.hpp       |  6 ++++++
 include/dynd/callables/outer_entry_callable.hpp | 11 +++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/outer_callable.hpp b/include/dynd/callables/outer_callable.hpp
index 0b8982f..7d55129 100644
--- a/include/dynd/callables/outer_callable.hpp
+++ b/include/dynd/callables/outer_callable.hpp
@@ -28,6 +28,12 @@ namespace nd {
         base_callable *child = reinterpret_cast<data_type *>(data)->child;
         size_t &i = reinterpret_cast<data_type *>(data)->i;
 
+        if (src_tp[i].get_id() != fixed_dim_id) {
+          std::stringstream ss;
+          ss << "outer: argument of type " << src_tp[i] << " has a dimension which is not fixed";
+          throw type_error(ss.str());
+        }
+
         cg.emplace_back([i](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
                             size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
           kb.emplace_back<outer_kernel<NArg>>(kernreq, i, dst_arrmeta, src_arrmeta);
diff --git a/include/dynd/callables/outer_entry_callable.hpp b/include/dynd/callables/outer_entry_callable.hpp
index 94f7c22..c666059 100644
--- a/include/dynd/callables/outer_entry_callable.hpp
+++ b/include/dynd/callables/outer_entry_callable.hpp
@@ -58,8 +58,15 @@ namespace nd {
           ++i;
         }
 
-        return dispatch_child->resolve(this, reinterpret_cast<char *>(&data), cg, dst_tp, nsrc, src_tp, nkwd, kwds,
-                                       tp_vars);
+        ndt::type ret_tp = dispatch_child->resolve(this, reinterpret_cast<char *>(&data), cg, dst_tp, nsrc, src_tp,
+                                                   nkwd, kwds, tp_vars);
+        if (!dst_tp.is_symbolic() && dst_tp != ret_tp) {
+          std::stringstream ss;
+          ss << "outer: cannot store a result of type " << ret_tp << " in a destination of type " << dst_tp;
+          throw type_error(ss.str());
+        }
+
+        return ret_tp;
       }
     };
 
-- 
2.43.0


From b92519f9b03247963ea647314e52683feb72e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:44 +0000
Subject: [PATCH 74/81] fix: range counted elements with sums that overflow

A negative step of the lowest number, differences beyond the signed range and
64-bit unsigned bounds gave ranges that were empty or of the wrong size.
---
 src/dynd/array_range.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/dynd/array_range.cpp b/src/dynd/array_range.cpp
index 5842e29..61d5206 100644
--- a/src/dynd/array_range.cpp
+++ b/src/dynd/array_range.cpp
@@ -43,6 +43,17 @@ struct range_specialization<int128> {
   }
 };
 
+// The number of steps from begin to end, where begin < end and step > 0. The difference and the negation of a step may
+// be beyond the range of a signed type, so this is computed without a sign.
+intptr_t count_steps(size_t begin, size_t end, size_t step) {
+  size_t count = (end - begin - 1) / step + 1;
+  if (count == 0 || count > static_cast<size_t>(std::numeric_limits<intptr_t>::max())) {
+    throw std::runtime_error("nd::range has too many elements");
+  }
+
+  return static_cast<intptr_t>(count);
+}
+
 template <class T, typename Enable = void>
 struct range_counter {
   static intptr_t count(const void *beginval, const void *endval, const void *stepval) {
@@ -54,13 +65,12 @@ struct range_counter {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      return count_steps((size_t)(intptr_t)begin, (size_t)(intptr_t)end, (size_t)(intptr_t)step);
     } else if (step < 0) {
       if (end >= begin) {
         return 0;
       }
-      step = -step;
-      return ((intptr_t)begin - (intptr_t)end + (intptr_t)step - 1) / (intptr_t)step;
+      return count_steps((size_t)(intptr_t)end, (size_t)(intptr_t)begin, 0 - (size_t)(intptr_t)step);
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
@@ -78,7 +88,7 @@ struct range_counter<T, std::enable_if_t<is_unsigned_integral<T>::value>> {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      return count_steps((size_t)(intptr_t)begin, (size_t)(intptr_t)end, (size_t)(intptr_t)step);
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
-- 
2.43.0


From cfe25c9a39d0cc7e91ca3a5a43c8475a11adf79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:44 +0000
Subject: [PATCH 75/81] fix: nd::range counted int32 and int64 elements with
 sums that overflow, and float elements past the stop

A float range with its stop on the wrong side asked for a huge array, and a
step of zero was not refused. A destination of another type or size was
written out of bounds.
---
 include/dynd/callables/range_callable.hpp | 39 +++++++++++++++++------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 329c05a..b5c0212 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -67,18 +67,19 @@ namespace nd {
         if (stop <= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step - 1) / step),
-                                                     ndt::make_type<ReturnElementType>());
+          size_t size = (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1;
+          return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
         }
       } else if (step < 0) {
         if (stop >= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step + 1) / step),
-                                                     ndt::make_type<ReturnElementType>());
+          size_t size =
+              (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1;
+          return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
         }
       } else {
-        throw std::runtime_error("");
+        throw std::runtime_error("nd::range cannot have a zero-sized step");
       }
     }
   };
@@ -131,6 +132,13 @@ namespace nd {
             reinterpret_cast<const ndt::fixed_dim_type::metadata_type *>(ret_metadata)->stride);
       });
 
+      if (step == 0) {
+        throw std::runtime_error("nd::range cannot have a zero-sized step");
+      }
+      if (step > 0 ? stop <= start : stop >= start) {
+        return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
+      }
+
       size_t size = static_cast<size_t>(floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step));
       return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
     }
@@ -154,18 +162,31 @@ namespace nd {
       static callable ffloat64 = nd::make_callable<range_callable<double>>();
 
       const ndt::type &ret_element_tp = (kwds[0].is_na() ? kwds[1] : kwds[0]).get_type();
+      ndt::type range_tp;
       switch (ret_element_tp.get_id()) {
       case int32_id:
-        return fint32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        range_tp = fint32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        break;
       case int64_id:
-        return fint64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        range_tp = fint64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        break;
       case float32_id:
-        return ffloat32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        range_tp = ffloat32->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        break;
       case float64_id:
-        return ffloat64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        range_tp = ffloat64->resolve(this, nullptr, cg, ret_tp, narg, arg_tp, nkwd, kwds, tp_vars);
+        break;
       default:
         throw std::runtime_error("unsupported id");
       }
+
+      if (!ret_tp.is_symbolic() && ret_tp != range_tp) {
+        std::stringstream ss;
+        ss << "range: cannot store a result of type " << range_tp << " in a destination of type " << ret_tp;
+        throw type_error(ss.str());
+      }
+
+      return range_tp;
     }
   };
 
-- 
2.43.0


From 3f815cdd55d03d9920ddd92c23a4a09948e50c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:44 +0000
Subject: [PATCH 76/81] fix: take refuses dimensions which are not fixed and
 destinations of another type

A var dimension was read as a fixed one, and a destination of another type was
written out of bounds.
---
 .../dynd/callables/take_dispatch_callable.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 90988ab..cdf9689 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -212,18 +212,33 @@ namespace nd {
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
+      if (src_tp[0].get_id() != fixed_dim_id || src_tp[1].get_id() != fixed_dim_id) {
+        std::stringstream ss;
+        ss << "take: cannot take from a " << src_tp[0] << " at a " << src_tp[1] << ", both need a fixed dimension";
+        throw type_error(ss.str());
+      }
+
+      ndt::type ret_tp;
       ndt::type mask_el_tp = src_tp[1].get_type_at_dimension(NULL, 1);
       if (mask_el_tp.get_id() == bool_id) {
         static callable f = make_callable<take_callable<bool_id>>();
-        return f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+        ret_tp = f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
       } else if (mask_el_tp.get_id() == ndt::make_type<intptr_t>().get_id()) {
         static callable f = make_callable<indexed_take_callable>();
-        return f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+        ret_tp = f->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
       } else {
         std::stringstream ss;
         ss << "take: unsupported type for the index " << mask_el_tp << ", need bool or intptr";
         throw std::invalid_argument(ss.str());
       }
+
+      if (!dst_tp.is_symbolic() && dst_tp != ret_tp) {
+        std::stringstream ss;
+        ss << "take: cannot store a result of type " << ret_tp << " in a destination of type " << dst_tp;
+        throw type_error(ss.str());
+      }
+
+      return ret_tp;
     }
   };
 
-- 
2.43.0


From aac1ae3f82fb33f3fa615cc475b039c1fc238c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:29 +0000
Subject: [PATCH 77/81] fix: assign_na of strings and bytes takes no arguments,
 but its kernel read the data of one

---
 include/dynd/kernels/assign_na_kernel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/kernels/assign_na_kernel.hpp b/include/dynd/kernels/assign_na_kernel.hpp
index af5c6dd..af6245d 100644
--- a/include/dynd/kernels/assign_na_kernel.hpp
+++ b/include/dynd/kernels/assign_na_kernel.hpp
@@ -134,12 +134,12 @@ namespace nd {
   };
 
   template <>
-  struct assign_na_kernel<bytes> : base_strided_kernel<assign_na_kernel<bytes>, 1> {
+  struct assign_na_kernel<bytes> : base_strided_kernel<assign_na_kernel<bytes>, 0> {
     void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<bytes *>(res)->clear(); }
   };
 
   template <>
-  struct assign_na_kernel<string> : base_strided_kernel<assign_na_kernel<string>, 1> {
+  struct assign_na_kernel<string> : base_strided_kernel<assign_na_kernel<string>, 0> {
     void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<bytes *>(res)->clear(); }
   };
 
-- 
2.43.0


From b4ebe5b67f45c74acfdcd49260987cc269b7210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 78/81] fix: a half was true, and its ! false, whatever its
 value

---
 include/dynd/float16.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/float16.hpp b/include/dynd/float16.hpp
index d4f320c..430426d 100644
--- a/include/dynd/float16.hpp
+++ b/include/dynd/float16.hpp
@@ -202,9 +202,9 @@ public:
 
   float16 operator-() const { return float16(-static_cast<float>(*this)); }
 
-  bool operator!() const { return (0x7fffu | m_bits) == 0; }
+  bool operator!() const { return (0x7fffu & m_bits) == 0; }
 
-  explicit operator bool() const { return (0x7ffu | m_bits) != 0; }
+  explicit operator bool() const { return (0x7fffu & m_bits) != 0; }
 };
 
 inline float16 operator+(const float16 &DYND_UNUSED(lhs), const float16 &DYND_UNUSED(rhs))
-- 
2.43.0


From 1727397a9700ee01d83d24fde948f7783e6f0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 79/81] fix: printed arrays left out commas between rows and,
 with 8 or 9 elements, mistook which are last

---
 src/dynd/type.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 3b2793a..b48a52d 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -659,7 +659,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     summarize_stats(leading.back(), num_rows, max_num_cols);
   }
   // Get trailing strings
-  for (itrail = max(dim_size - trailing_count, ilead + 1); itrail < dim_size; ++itrail) {
+  for (itrail = max(dim_size - trailing_count, ilead); itrail < dim_size; ++itrail) {
     stringstream ss;
     tp.print_data(ss, arrmeta, data + itrail * stride);
     trailing.push_back(ss.str());
@@ -694,6 +694,8 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     if (leading.size() != (size_t)dim_size) {
       if ((size_t)dim_size > (leading.size() + trailing.size())) {
         o << ",\n ...\n";
+      } else {
+        o << ",\n";
       }
       if (!trailing.empty()) {
         print_indented(o, " ", trailing.front());
@@ -750,7 +752,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       for (j = 1; j < per_row && i < i_size; ++j, ++i) {
         o << ", " << setw(max_num_cols) << leading[i] << setw(0);
       }
-      if (i < i_size - 1) {
+      if (i < i_size) {
         o << ",\n";
       }
     }
@@ -764,7 +766,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
         for (j = 1; j < per_row && i < i_size; ++j, ++i) {
           o << ", " << setw(max_num_cols) << trailing[i] << setw(0);
         }
-        if (i < i_size - 1) {
+        if (i < i_size) {
           o << ",\n";
         }
       }
-- 
2.43.0


From 1a6852186e73cd76483221aefb86d709b40e2521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 80/81] fix: printing an array with an element wider than a row
 divided by zero

---
 src/dynd/type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index b48a52d..d6d22e8 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -726,7 +726,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       total_cols = (max_num_cols + 2) * (leading.size() + trailing.size());
     }
 
-    intptr_t per_row = packing_cols / (max_num_cols + 2);
+    intptr_t per_row = max<intptr_t>(packing_cols / (max_num_cols + 2), 1);
 
     if (leading.size() + trailing.size() == (size_t)dim_size) {
       // Combine the lists if the total size is covered
-- 
2.43.0


From 347e0301015af567f48ed0f4d72753ea0f3cfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:07 +0000
Subject: [PATCH 81/81] fix: available values of ?string, ?uint8 and other
 types were shown as NA and written as null

---
 src/dynd/types/option_type.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index 6ced891..16eb351 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -80,8 +80,11 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
   case complex_float64_id:
     return reinterpret_cast<const uint64_t *>(data)[0] != DYND_FLOAT64_NA_AS_UINT ||
            reinterpret_cast<const uint64_t *>(data)[1] != DYND_FLOAT64_NA_AS_UINT;
-  default:
+  case void_id:
     return false;
+  default:
+    // The other types have no value which stands for NA
+    return true;
   }
 }
 
-- 
2.43.0

