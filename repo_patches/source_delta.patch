From 7ab9b70030331946a292d958ccf69ed7d28c551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:27 +0000
Subject: [PATCH 01/34] fix: NdArray iterator post-increment advances and
 returns the previous position

---
 NdArray/NdArray/_impl/NdArray.icpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 31ae36f..26a1c56 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -59,7 +59,9 @@ auto NdArray<T>::Iterator<Const>::operator++() -> Iterator& {
 template <typename T>
 template <bool Const>
 auto NdArray<T>::Iterator<Const>::operator++(int) -> Iterator {
-  return Iterator{m_container_ptr, m_offset, m_row_size, m_stride, m_i + 1};
+  Iterator previous{m_container_ptr, m_offset, m_row_size, m_stride, m_i};
+  ++m_i;
+  return previous;
 }
 
 template <typename T>
-- 
2.43.0


From 7d0336bbec007ebe8b0a0371fc505b45f04dd5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:27 +0000
Subject: [PATCH 02/34] fix: compute NdArray sizes in size_t instead of 32 bits

std::accumulate takes the accumulator type from the initial value: reshape({2^32 + 6})
was accepted for an array of 6 elements.
---
 NdArray/NdArray/NdArray.h          |  2 +-
 NdArray/NdArray/_impl/NdArray.icpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/NdArray/NdArray/NdArray.h b/NdArray/NdArray/NdArray.h
index 911444c..baee815 100644
--- a/NdArray/NdArray/NdArray.h
+++ b/NdArray/NdArray/NdArray.h
@@ -521,7 +521,7 @@ private:
 
     template <typename T2>
     auto resizeImpl(const std::vector<size_t>& shape) -> decltype((void)std::declval<Container<T2>>().resize(size_t{}), void()) {
-      auto new_size = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
+      auto new_size = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
       m_container.resize(new_size);
     }
 
diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 26a1c56..b2d0c56 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -30,7 +30,7 @@ NdArray<T>::Iterator<Const>::Iterator(ContainerInterface* container_ptr, size_t
                                       const std::vector<size_t>& strides, size_t start)
     : m_container_ptr(container_ptr)
     , m_offset(offset)
-    , m_row_size(std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>()))
+    , m_row_size(std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>()))
     , m_stride{strides.back()}
     , m_i{start} {}
 
@@ -153,7 +153,7 @@ template <typename T>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container(new ContainerWrapper<std::vector>(m_size)) {
   update_strides();
 }
@@ -163,7 +163,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, const Container<T>& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(data)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -176,7 +176,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, Container<T>&& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(std::move(data))} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -189,7 +189,7 @@ template <typename II>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, II ibegin, II iend)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<std::vector>(ibegin, iend)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -202,7 +202,7 @@ NdArray<T>::NdArray(const self_type* other)
     : m_offset{0}
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{other->m_container->copy()} {
   update_strides();
 }
@@ -225,7 +225,7 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (!m_attr_names.empty())
     throw std::invalid_argument("Can not reshape arrays with attribute names");
 
-  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<size_t>());
+  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), size_t{1}, std::multiplies<size_t>());
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
@@ -355,7 +355,7 @@ template <typename T>
 NdArray<T>::NdArray(std::shared_ptr<ContainerInterface> container, size_t offset, std::vector<size_t> shape_,
                     std::vector<size_t> stride, std::vector<std::string> attr_names)
     : m_offset{offset}, m_shape{shape_}, m_stride_size{stride}, m_attr_names{attr_names}, m_container{container} {
-  m_size = std::accumulate(m_shape.begin(), m_shape.end(), 1, std::multiplies<size_t>());
+  m_size = std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
 template <typename T>
-- 
2.43.0


From 14be09543fdcce55ec39199031a3259a3e00b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:27 +0000
Subject: [PATCH 03/34] fix: copying an NdArray slice keeps the elements of the
 slice

The copy kept the whole container but dropped the offset and strides of the view.
---
 NdArray/NdArray/_impl/NdArray.icpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index b2d0c56..d938578 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -199,13 +199,12 @@ NdArray<T>::NdArray(const std::vector<size_t>& shape_, II ibegin, II iend)
 
 template <typename T>
 NdArray<T>::NdArray(const self_type* other)
-    : m_offset{0}
+    : m_offset{other->m_offset}
     , m_shape{other->m_shape}
+    , m_stride_size{other->m_stride_size}
     , m_attr_names{other->m_attr_names}
     , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
-    , m_container{other->m_container->copy()} {
-  update_strides();
-}
+    , m_container{other->m_container->copy()} {}
 
 inline std::vector<size_t> appendAttrShape(std::vector<size_t> shape, size_t append) {
   if (append)
-- 
2.43.0


From 0f4a008f325f0ce0400d148acf0776ccac179abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:27 +0000
Subject: [PATCH 04/34] fix: reshaping an NdArray view keeps the step between
 its elements

---
 NdArray/NdArray/_impl/NdArray.icpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index d938578..6031f5a 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -228,8 +228,13 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
-  m_shape = new_shape;
+  // A view (i.e. from rslice) may have a gap between consecutive elements, which must be kept
+  size_t step = m_stride_size.empty() ? 1 : m_stride_size.back();
+  m_shape     = new_shape;
   update_strides();
+  for (auto& stride : m_stride_size) {
+    stride *= step;
+  }
   return *this;
 }
 
-- 
2.43.0


From a287a74a2424db0f6a08215c9f906766f1b3f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:27 +0000
Subject: [PATCH 05/34] fix: NdArray slices keep the attribute names of the
 axis they keep

The names belong to the last axis: slice (first axis) shifted them by one, so that
at(..., name) returned another attribute, and rslice (last axis) kept stale ones.
---
 NdArray/NdArray/_impl/NdArray.icpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 6031f5a..7c9ebc2 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -370,15 +370,11 @@ auto NdArray<T>::slice(size_t i) -> self_type {
   if (i >= m_shape[0]) {
     throw std::out_of_range("Axis 0 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin() + 1, m_attr_names.end(), attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size[0];
   std::vector<size_t> stride_(m_stride_size.begin() + 1, m_stride_size.end());
   std::vector<size_t> shape_(m_shape.begin() + 1, m_shape.end());
-  return NdArray(m_container, offset, std::move(shape_), std::move(stride_), std::move(attrs));
+  // The attributes name the last axis, which is kept
+  return NdArray(m_container, offset, std::move(shape_), std::move(stride_), m_attr_names);
 }
 
 template <typename T>
@@ -394,15 +390,11 @@ auto NdArray<T>::rslice(size_t i) -> self_type {
   if (i >= m_shape.back()) {
     throw std::out_of_range("Axis -1 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin(), m_attr_names.end() - 1, attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size.back();
   std::vector<size_t> strides_(m_stride_size.begin(), m_stride_size.end() - 1);
   std::vector<size_t> shape_(m_shape.begin(), m_shape.end() - 1);
-  return NdArray(m_container, offset, std::move(shape_), std::move(strides_), std::move(attrs));
+  // The attributes name the last axis, which is gone
+  return NdArray(m_container, offset, std::move(shape_), std::move(strides_), {});
 }
 
 template <typename T>
-- 
2.43.0


From b5eb7dc9e20abeaa2973426240aff878658a57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:27 +0000
Subject: [PATCH 06/34] fix: unravel_index rejects any index of an empty shape

A zero-sized axis was a division by zero, an empty shape an access out of bounds.
---
 NdArray/src/Operations.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/NdArray/src/Operations.cpp b/NdArray/src/Operations.cpp
index 8155991..ee92d11 100644
--- a/NdArray/src/Operations.cpp
+++ b/NdArray/src/Operations.cpp
@@ -24,12 +24,15 @@ namespace NdArray {
 std::vector<std::size_t> unravel_index(std::size_t index, const std::vector<std::size_t>& shape) {
   std::vector<std::size_t> coords(shape.size());
   std::size_t              i = coords.size();
-  do {
+  while (i > 0) {
     --i;
     std::size_t stride = shape[i];
-    coords[i]          = index % stride;
+    if (stride == 0) {
+      throw std::out_of_range("Index out of bounds");
+    }
+    coords[i] = index % stride;
     index /= stride;
-  } while (i > 0);
+  }
   if (index > 0) {
     throw std::out_of_range("Index out of bounds");
   }
-- 
2.43.0


From 77e0920b37f2deb0f9a5279f71bc5c8f190c7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:41 +0000
Subject: [PATCH 07/34] fix: interpolating no points is refused and a single
 point does not read past the functions

---
 MathUtils/src/lib/interpolation/interpolation.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index ad5a4f7..8b1060e 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -45,6 +45,10 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
                                    << "size: X=" << x.size() << ", Y=" << y.size();
   }
 
+  if (x.empty()) {
+    throw InterpolationException() << "Can not interpolate an empty list of values";
+  }
+
   if (x.size() == 1 && extrapolate) {
     auto c = y.front();
     return make_unique<FunctionAdapter>([c](double) { return c; });
@@ -75,6 +79,13 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
     final_y.emplace_back(y[i]);
   }
 
+  // A single point gives no segment to interpolate
+  if (final_x.size() == 1) {
+    auto knot = final_x.front();
+    auto c    = final_y.front();
+    return make_unique<FunctionAdapter>([knot, c, extrapolate](double v) { return (extrapolate || v == knot) ? c : 0.; });
+  }
+
   switch (type) {
   case InterpolationType::LINEAR:
     return linearInterpolation(final_x, final_y, extrapolate);
-- 
2.43.0


From 79fd6a3da6bd5afbeb0184e5592cf0f61634b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:41 +0000
Subject: [PATCH 08/34] fix: simple_interpolation at a step averages the two
 values

---
 MathUtils/src/lib/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index 8b1060e..337a530 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -133,7 +133,7 @@ double simple_interpolation(double x, const std::vector<double>& xp, const std::
   double y1 = yp[i], y0 = yp[i - 1];
 
   if (x1 == x0) {
-    return (x1 + y1) / 2.;
+    return (y0 + y1) / 2.;
   }
 
   double coef1 = (y1 - y0) / (x1 - x0);
-- 
2.43.0


From 58daa24f142629509e99e91f98c0b01317126a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:41 +0000
Subject: [PATCH 09/34] fix: a Piecewise with one knot and no functions
 evaluates to zero

---
 MathUtils/src/lib/function/Piecewise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/function/Piecewise.cpp b/MathUtils/src/lib/function/Piecewise.cpp
index f53b2e9..de3c84d 100644
--- a/MathUtils/src/lib/function/Piecewise.cpp
+++ b/MathUtils/src/lib/function/Piecewise.cpp
@@ -70,7 +70,7 @@ const std::vector<std::unique_ptr<Function>>& Piecewise::getFunctions() const {
 
 double Piecewise::operator()(const double x) const {
   auto knotsBegin = m_knots.begin();
-  if (x < *knotsBegin) {
+  if (m_functions.empty() || x < *knotsBegin) {
     return 0;
   }
   if (x == *knotsBegin) {
-- 
2.43.0


From 8989e439c40a0dbfbc9a3972908c2412f95f1b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:10 +0000
Subject: [PATCH 10/34] fix: multiplying piecewise functions that do not
 overlap reads past the knots

---
 MathUtils/src/lib/function/multiplication.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 33fd76c..8e5b9cf 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -67,11 +67,11 @@ std::vector<double> overlappingKnots(const std::vector<double>& knots1, const st
   while (p1Iter != knots1.end() && p2Iter != knots2.end()) {
     if (!started) {
       if (*p1Iter < *p2Iter) {
-        if (*(++p1Iter) > *p2Iter) {
+        if (++p1Iter != knots1.end() && *p1Iter > *p2Iter) {
           started = true;
         }
       } else {
-        if (*p1Iter < *(++p2Iter)) {
+        if (++p2Iter != knots2.end() && *p1Iter < *p2Iter) {
           started = true;
         }
       }
-- 
2.43.0


From 111e5fb7f23cfd8e0be84dd930711fdc5dc93e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:28 +0000
Subject: [PATCH 11/34] fix: the product of polynomials without coefficients is
 zero

---
 MathUtils/src/lib/function/multiplication.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 8e5b9cf..e7115d6 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -40,6 +40,9 @@ std::unique_ptr<Function> multiplyPolynomials(const Function& f1, const Function
   const Polynomial&   p2 = dynamic_cast<const Polynomial&>(f2);
   std::vector<double> c1 = p1.getCoefficients();
   std::vector<double> c2 = p2.getCoefficients();
+  if (c1.empty() || c2.empty()) {
+    return std::unique_ptr<Polynomial>(new Polynomial{{0.}});
+  }
   std::vector<double> resultCoef(c1.size() + c2.size() - 1, 0.);
   for (size_t i = 0; i < c1.size(); ++i)
     for (size_t j = 0; j < c2.size(); ++j)
-- 
2.43.0


From 97001b28d118a8d607c1281a175b8fef03cc3daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:36 +0000
Subject: [PATCH 12/34] fix: a grid sliced twice reports both axes as fixed

The slice constructor computed the axes of the new slice from the full axes, so
slicing a slice reported the axis fixed first as complete again and size()
counted its cells.
---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 2c8e7ca..ca5e31a 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -46,7 +46,7 @@ template <typename GridCellManager, typename... AxesTypes>
 GridContainer<GridCellManager, AxesTypes...>::GridContainer(const GridContainer<GridCellManager, AxesTypes...>& other, size_t axis,
                                                             size_t index)
     : m_axes{other.m_axes}
-    , m_axes_fixed{fixAxis(other.m_axes, axis, index)}
+    , m_axes_fixed{other.m_fixed_indices.count(axis) ? other.m_axes_fixed : fixAxis(other.m_axes_fixed, axis, index)}
     , m_fixed_indices{other.m_fixed_indices}
     , m_cell_manager{other.m_cell_manager} {
   // Update the fixed indices
-- 
2.43.0


From 73947c34fec9c72e34c56a4c8040c1df6cbc9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:22 +0000
Subject: [PATCH 13/34] fix: trying for a file accessor no longer locks twice
 when the first attempt succeeds

---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 8e7324c..e3703ee 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -29,10 +29,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   assert(manager);
 
   UniqueLock unique_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !unique_lock.try_lock()) {
-    return nullptr;
-  } else {
+  if (!try_lock) {
     unique_lock.lock();
+  } else if (!unique_lock.try_lock()) {
+    return nullptr;
   }
 
   std::lock_guard<std::mutex> this_lock(m_handler_mutex);
@@ -87,10 +87,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   assert(manager);
 
   SharedLock shared_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !shared_lock.try_lock()) {
-    return nullptr;
-  } else {
+  if (!try_lock) {
     shared_lock.lock();
+  } else if (!shared_lock.try_lock()) {
+    return nullptr;
   }
 
   std::lock_guard<std::mutex> this_lock(m_handler_mutex);
-- 
2.43.0


From d4a5e2727fecc9c8d6cb8f2fa64d7b00ee64b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:22 +0000
Subject: [PATCH 14/34] fix: close the idle write descriptor of another type
 instead of dropping it

---
 FilePool/FilePool/_impl/FileHandler.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index e3703ee..b913134 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -52,6 +52,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (!m_available_fd.empty()) {
     auto typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(m_available_fd.begin()->second.get());
     if (!typed_ptr) {
+      m_available_fd.begin()->second->close();
       m_available_fd.clear();
     }
   }
-- 
2.43.0


From cd1095fcf1573c01192413f0283fc15b3aae8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:22 +0000
Subject: [PATCH 15/34] fix: opening a file no longer deadlocks when room has
 to be made in the same handler

---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index b913134..ee49dc8 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -35,7 +35,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
     return nullptr;
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (m_is_readonly) {
@@ -59,7 +59,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
 
   // Open one file if we need
   if (m_available_fd.empty()) {
+    // The manager may ask this very handler to close a file in order to make room
+    this_lock.unlock();
     auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     m_available_fd[fd.first] =
         std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
   }
@@ -94,7 +97,7 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
     return nullptr;
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (!m_is_readonly) {
@@ -115,7 +118,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
 
   // Open one file if we need
   if (!typed_ptr) {
-    auto fd   = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    // The manager may ask this very handler to close a file in order to make room
+    this_lock.unlock();
+    auto fd = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
     avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
   }
-- 
2.43.0


From c026f87fbf28eda94562240cfc71cf8c495a16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:57 +0000
Subject: [PATCH 16/34] fix: values just below the end are in the last bin, and
 values below the first bin in none

---
 Histogram/Histogram/Binning/Scott.h | 5 ++++-
 Histogram/Histogram/Binning/Sqrt.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index e3b53d8..3fc14e9 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -83,9 +83,12 @@ public:
   }
 
   ssize_t getBinIndex(VarType value) const final {
+    if (value < m_start || value > m_end)
+      return -1;
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    // The division may round up to the number of bins just below the end
+    return std::min<ssize_t>((value - m_start) / m_step, m_nbins - 1);
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index f707e96..797e63f 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -52,9 +52,12 @@ public:
   }
 
   ssize_t getBinIndex(VarType value) const final {
+    if (value < m_start || value > m_end)
+      return -1;
     if (value == m_end)
       return m_nbins - 1;
-    return (value - m_start) / m_step;
+    // The division may round up to the number of bins just below the end
+    return std::min<ssize_t>((value - m_start) / m_step, m_nbins - 1);
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
-- 
2.43.0


From e0fe0e61543035e385f4ae3be7c532619ef04308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:57 +0000
Subject: [PATCH 17/34] fix: Scott's rule has one bin for equal values, however
 their variance is rounded

---
 Histogram/Histogram/Binning/Scott.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index 3fc14e9..71e63ea 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -67,7 +67,8 @@ public:
     VarType vmin  = min(acc);
     VarType vmax  = max(acc);
 
-    if (sigma == 0) {
+    // The variance of equal values may be rounded to something else than 0
+    if (vmin == vmax || !(sigma > 0)) {
       vmax += 0.5;
       vmin -= 0.5;
       h = 1;
-- 
2.43.0


From 804f780053afb8cab29eba1261ba8fec525bd63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:57 +0000
Subject: [PATCH 18/34] fix: histogram statistics do not require sums of
 weights to be exact in floating point

---
 Histogram/Histogram/_impl/ComputationImpl.icpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Histogram/Histogram/_impl/ComputationImpl.icpp b/Histogram/Histogram/_impl/ComputationImpl.icpp
index 2af6c21..490fbaa 100644
--- a/Histogram/Histogram/_impl/ComputationImpl.icpp
+++ b/Histogram/Histogram/_impl/ComputationImpl.icpp
@@ -49,8 +49,6 @@ std::tuple<VarType, VarType, VarType> Histogram<VarType, WeightType>::Computatio
     }
   }
 
-  assert(low_sum + high_sum == total_count);
-
   VarType median;
   if (high_i >= 0) {
     auto edges      = m_binning.getBinEdges(high_i + 1);
-- 
2.43.0


From 1b9c356aa3ff64e559274824c8bda12191569b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:57 +0000
Subject: [PATCH 19/34] fix: the median of a histogram is interpolated in the
 bin that holds it

---
 Histogram/Histogram/_impl/ComputationImpl.icpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/Histogram/Histogram/_impl/ComputationImpl.icpp b/Histogram/Histogram/_impl/ComputationImpl.icpp
index 490fbaa..72b9df5 100644
--- a/Histogram/Histogram/_impl/ComputationImpl.icpp
+++ b/Histogram/Histogram/_impl/ComputationImpl.icpp
@@ -50,13 +50,16 @@ std::tuple<VarType, VarType, VarType> Histogram<VarType, WeightType>::Computatio
   }
 
   VarType median;
-  if (high_i >= 0) {
-    auto edges      = m_binning.getBinEdges(high_i + 1);
-    auto bin_width  = (edges.second - edges.first);
-    auto max_counts = std::max((*m_counts)[low_i], (*m_counts)[high_i]);
-    median          = edges.first + bin_width * (high_sum - low_sum) / (2.0 * max_counts);
+  if (high_i < m_clip_left) {
+    median = m_binning.getBin(m_clip_left);
+  } else if (high_sum > low_sum) {
+    // Within the bin above the edge where both sums met
+    auto edges = m_binning.getBinEdges(low_i);
+    median     = edges.first + (edges.second - edges.first) * (high_sum - low_sum) / (2.0 * (*m_counts)[low_i]);
   } else {
-    median = m_binning.getBin(0);
+    // Within the bin below it
+    auto edges = m_binning.getBinEdges(high_i);
+    median     = edges.second + (edges.second - edges.first) * (high_sum - low_sum) / (2.0 * (*m_counts)[high_i]);
   }
 
   return std::make_tuple(mean, median, sigma);
-- 
2.43.0


From 59c4451bf0260cf9343f10fe1f8bfe0cd392bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 20/34] fix: refuse vector cells with missing elements instead
 of dropping them

---
 Table/src/lib/AsciiReaderHelper.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index d8f0b4f..d3f9e0c 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -248,8 +248,12 @@ namespace {
 
 template <typename T>
 std::vector<T> convertStringToVector(const std::string& str) {
-  std::vector<T>                                result{};
-  boost::char_separator<char>                   sep{","};
+  std::vector<T> result{};
+  if (str.empty()) {
+    return result;
+  }
+  // Keep the empty tokens, so they are refused instead of being ignored
+  boost::char_separator<char>                   sep{",", "", boost::keep_empty_tokens};
   boost::tokenizer<boost::char_separator<char>> tok{str, sep};
   for (auto& s : tok) {
     result.push_back(boost::get<T>(convertToCellType(s, typeid(T))));
-- 
2.43.0


From b94706b14b4d27efc7c66a78ff7d1646f07446ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 21/34] fix: refuse NdArray cells with a negative size in their
 shape

---
 Table/src/lib/AsciiReaderHelper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index d3f9e0c..f083e8b 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -26,6 +26,7 @@
 #include "ElementsKernel/Exception.h"
 #include "ElementsKernel/Logging.h"
 #include "NdArray/NdArray.h"
+#include <algorithm>
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <boost/tokenizer.hpp>
@@ -278,6 +279,9 @@ NdArray<T> convertStringToNdArray(const std::string& str) {
   auto shape_i   = convertStringToVector<int32_t>(shape_str);
   auto data      = convertStringToVector<T>(str.substr(closing_char + 1));
 
+  if (std::any_of(shape_i.begin(), shape_i.end(), [](int32_t i) { return i < 0; })) {
+    throw Elements::Exception() << "Negative size in the shape of a NdArray: " << shape_str;
+  }
   std::vector<size_t> shape_u;
   std::copy(shape_i.begin(), shape_i.end(), std::back_inserter(shape_u));
   return NdArray<T>(shape_u, data);
-- 
2.43.0


From 4f451ec8521f76465f5bc8881abf38d07f5dcac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 22/34] fix: read quoted text in the first column of an ASCII
 table

---
 Table/src/lib/AsciiReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index 667e023..d7728a1 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -214,7 +214,7 @@ Table AsciiReader::readImpl(long rows) {
       size_t                      count{0};
       std::vector<Row::cell_type> values{};
       std::string                 token;
-      line_stream >> token;
+      line_stream >> boost::io::quoted(token);
       while (line_stream) {
         if (count >= m_column_info->size()) {
           throw Elements::Exception() << "Line with wrong number of cells: " << line;
-- 
2.43.0


From 01d8363b37bb6d5ea3896041c6ff07391d703ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 23/34] fix: keep the position of a rewound stream in its own
 type

---
 Table/src/lib/AsciiReaderHelper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.h b/Table/src/lib/AsciiReaderHelper.h
index f02e67b..0088249 100644
--- a/Table/src/lib/AsciiReaderHelper.h
+++ b/Table/src/lib/AsciiReaderHelper.h
@@ -54,9 +54,9 @@ public:
   }
 
 private:
-  std::istream&     m_stream;
-  std::ios::iostate m_state;
-  int               m_position;
+  std::istream&          m_stream;
+  std::ios::iostate      m_state;
+  std::istream::pos_type m_position;
 };
 
 /**
-- 
2.43.0


From 7ef41bf3fa1967b33cf3661e9f7c19c36cbcc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 24/34] fix: auto-detect quoted column names from the column
 descriptions

---
 Table/src/lib/AsciiReaderHelper.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index f083e8b..22a07be 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -196,11 +196,10 @@ std::vector<std::string> autoDetectColumnNames(std::istream& in, const std::stri
         std::string temp = line;
         temp.erase(0, 7);
         boost::trim(temp);
-        auto space_i = temp.find(' ');
-        if (space_i > 0) {
-          temp = temp.substr(0, space_i);
-        }
-        desc_names.emplace_back(std::move(temp));
+        std::stringstream name_stream(temp);
+        std::string       name;
+        name_stream >> boost::io::quoted(name);
+        desc_names.emplace_back(std::move(name));
       }
     } else {
       break;  // here we reached the first data line
-- 
2.43.0


From 9142fdbe5afc2788049266e51f2e1e68f04d6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 25/34] fix: write units with white space so they can be read
 back

---
 Table/src/lib/AsciiWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiWriter.cpp b/Table/src/lib/AsciiWriter.cpp
index 50cd6a4..6a5220f 100644
--- a/Table/src/lib/AsciiWriter.cpp
+++ b/Table/src/lib/AsciiWriter.cpp
@@ -93,7 +93,7 @@ void AsciiWriter::init(const Table& table) {
 
       out << m_comment << " Column: " << quoted(desc.name) << ' ' << typeToKeyword(desc.type);
       if (!desc.unit.empty()) {
-        out << " (" << desc.unit << ")";
+        out << ' ' << quoted("(" + desc.unit + ")");
       }
       if (!desc.description.empty()) {
         out << " - " << desc.description;
-- 
2.43.0


From a35f8799fff3710daca32fd018d75785bf7db694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:19 +0000
Subject: [PATCH 26/34] fix: read column descriptions with repeated spaces or
 quotes as they were written

---
 Table/src/lib/AsciiReaderHelper.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 22a07be..97f8723 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -148,15 +148,18 @@ std::map<std::string, ColumnDescription> autoDetectColumnDescriptions(std::istre
               line_stream >> boost::io::quoted(token);
             }
           }
+          std::string desc_str;
           if (line_stream && token == "-") {
-            line_stream >> boost::io::quoted(token);
-          }
-          std::stringstream desc;
-          while (line_stream) {
-            desc << token << ' ';
-            line_stream >> boost::io::quoted(token);
+            // The rest of the line, as it is
+            getline(line_stream, desc_str);
+          } else {
+            std::stringstream desc;
+            while (line_stream) {
+              desc << token << ' ';
+              line_stream >> boost::io::quoted(token);
+            }
+            desc_str = desc.str();
           }
-          std::string desc_str = desc.str();
           boost::trim(desc_str);
           descriptions.emplace(std::piecewise_construct, std::forward_as_tuple(name),
                                std::forward_as_tuple(name, type, unit, desc_str));
-- 
2.43.0


From d610038da2c043858af71a28afee41999ba47dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 27/34] fix: reading the comment of an ASCII table leaves its
 column descriptions in the stream

---
 Table/src/lib/AsciiReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index d7728a1..50737ea 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -182,6 +182,8 @@ std::string AsciiReader::getComment() {
 
   m_reading_started = true;
   auto& in          = m_stream_holder->ref();
+  // The comments may be followed by the column descriptions, which are read later
+  StreamRewinder rewinder{in};
   while (in && _peekLine(in).compare(0, m_comment.size(), m_comment) == 0) {
     std::string line;
     getline(in, line);
-- 
2.43.0


From 47676259e080ce5527ee999a21d20bee78e695a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:09 +0000
Subject: [PATCH 28/34] fix: write cells with empty vectors

---
 Table/src/lib/AsciiWriterHelper.h | 3 ++-
 Table/src/lib/Row.cpp             | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/Table/src/lib/AsciiWriterHelper.h b/Table/src/lib/AsciiWriterHelper.h
index 9ccb19a..cffb3e3 100644
--- a/Table/src/lib/AsciiWriterHelper.h
+++ b/Table/src/lib/AsciiWriterHelper.h
@@ -85,7 +85,8 @@ struct ToStringVisitor : public boost::static_visitor<std::string> {
   std::string operator()(const T& from) const {
     std::stringstream q;
     q << from;
-    return q.str();
+    // Without a placeholder for an empty cell the rest of the row would move one column
+    return q.str().empty() ? "\"\"" : q.str();
   }
 };
 
diff --git a/Table/src/lib/Row.cpp b/Table/src/lib/Row.cpp
index ae37622..2f529b7 100644
--- a/Table/src/lib/Row.cpp
+++ b/Table/src/lib/Row.cpp
@@ -46,9 +46,10 @@ namespace std {
 template <typename T>
 std::ostream& operator<<(std::ostream& s, const std::vector<T>& v) {
   auto it = v.begin();
-  if (it != v.end()) {
-    s << *it;
+  if (it == v.end()) {
+    return s;
   }
+  s << *it;
   while (++it != v.end()) {
     s << ',' << *it;
   }
-- 
2.43.0


From c4cd63c36c5a26a603b292e4c9b1209ab4604d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:01 +0000
Subject: [PATCH 29/34] fix: write floating point cells with the digits needed
 to read the same value back

---
 Table/src/lib/AsciiWriterHelper.cpp | 24 ++++++++++++++++++++++++
 Table/src/lib/AsciiWriterHelper.h   | 29 +++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+)

diff --git a/Table/src/lib/AsciiWriterHelper.cpp b/Table/src/lib/AsciiWriterHelper.cpp
index 84c15a3..aed18cb 100644
--- a/Table/src/lib/AsciiWriterHelper.cpp
+++ b/Table/src/lib/AsciiWriterHelper.cpp
@@ -27,6 +27,7 @@
 #include <algorithm>
 #include <boost/lexical_cast.hpp>
 #include <boost/regex.hpp>
+#include <limits>
 
 #if BOOST_VERSION < 107300
 #include <boost/io/detail/quoted_manip.hpp>
@@ -90,6 +91,29 @@ std::string typeToKeyword(std::type_index type) {
   throw Elements::Exception() << "Conversion to string for type " << type.name() << " is not supported";
 }
 
+template <typename T>
+static int precisionFor(T value) {
+  int precision = 6;
+  for (; precision < std::numeric_limits<T>::max_digits10; ++precision) {
+    std::stringstream text;
+    text.precision(precision);
+    text << value;
+    T read_back{};
+    if (text >> read_back && read_back == value) {
+      break;
+    }
+  }
+  return precision;
+}
+
+int requiredPrecision(float value) {
+  return precisionFor(value);
+}
+
+int requiredPrecision(double value) {
+  return precisionFor(value);
+}
+
 std::vector<size_t> calculateColumnLengths(const Table& table) {
   std::vector<size_t> sizes{};
   // We initialize the values to the required size for the column name
diff --git a/Table/src/lib/AsciiWriterHelper.h b/Table/src/lib/AsciiWriterHelper.h
index cffb3e3..2076b62 100644
--- a/Table/src/lib/AsciiWriterHelper.h
+++ b/Table/src/lib/AsciiWriterHelper.h
@@ -25,6 +25,7 @@
 #ifndef TABLE_ASCIIWRITERHELPER_H
 #define TABLE_ASCIIWRITERHELPER_H
 
+#include <algorithm>
 #include <sstream>
 #include <typeindex>
 #include <vector>
@@ -74,6 +75,33 @@ std::string quoted(const std::string& str);
  * This visitor will wrap strings between quotes so spaces (and quotes) can be
  * used within strings. Other types will have their usual representation.
  */
+/// The number of digits required for reading back the same value (6, the default of the streams, when enough)
+ELEMENTS_API int requiredPrecision(float value);
+ELEMENTS_API int requiredPrecision(double value);
+
+template <typename T>
+int requiredPrecision(const T&) {
+  return 6;
+}
+
+template <typename T>
+int requiredPrecision(const std::vector<T>& values) {
+  int precision = 6;
+  for (T value : values) {
+    precision = std::max(precision, requiredPrecision(value));
+  }
+  return precision;
+}
+
+template <typename T>
+int requiredPrecision(const NdArray::NdArray<T>& values) {
+  int precision = 6;
+  for (T value : values) {
+    precision = std::max(precision, requiredPrecision(value));
+  }
+  return precision;
+}
+
 struct ToStringVisitor : public boost::static_visitor<std::string> {
   std::string operator()(const std::string& from) const {
     std::stringstream q;
@@ -84,6 +112,7 @@ struct ToStringVisitor : public boost::static_visitor<std::string> {
   template <typename T>
   std::string operator()(const T& from) const {
     std::stringstream q;
+    q.precision(requiredPrecision(from));
     q << from;
     // Without a placeholder for an empty cell the rest of the row would move one column
     return q.str().empty() ? "\"\"" : q.str();
-- 
2.43.0


From 3569041f8e604237f5796cfc79e8d3916db27903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 30/34] fix: findWildcardNames() ignores options which only
 begin like a wildcard option

---
 Configuration/src/lib/ProgramOptionsHelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Configuration/src/lib/ProgramOptionsHelper.cpp b/Configuration/src/lib/ProgramOptionsHelper.cpp
index 53099cf..85fbd35 100644
--- a/Configuration/src/lib/ProgramOptionsHelper.cpp
+++ b/Configuration/src/lib/ProgramOptionsHelper.cpp
@@ -41,6 +41,9 @@ ProgramOptionsHelper::findWildcardNames(const std::vector<std::string>&
       if (boost::starts_with(pair.first, option_name)) {
         auto name = pair.first.substr(option_name.size());
         if (!name.empty()) {
+          if (name[0] != '-') {
+            continue;  // Another option, which only begins with the same letters
+          }
           name = name.substr(1);
         }
         result.insert(name);
-- 
2.43.0


From a17a98c8a382122f4849b95b963b3933e85fd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 31/34] fix: a circle of dependencies not containing the
 configuration checked first recursed without end

---
 Configuration/src/lib/ConfigManager.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index d86b658..7baff48 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -44,13 +44,18 @@ ConfigManager::ConfigManager(long id) : m_id{id} {}
 
 std::vector<std::type_index>
 hasCircularDependencies(const std::map<std::type_index, std::set<std::type_index>>& dependency_map, const std::type_index& root,
-                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair) {
+                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair,
+                        std::set<std::type_index>&                                         visited) {
 
+  // Each configuration is followed once, as the root might lead to a circle without being part of it
+  if (!visited.insert(config_pair.first).second) {
+    return {};
+  }
   if (config_pair.second.find(root) != config_pair.second.end()) {
     return {root};
   }
   for (auto& config : config_pair.second) {
-    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config));
+    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config), visited);
     if (!found.empty()) {
       std::vector<std::type_index> result{config};
       for (auto& type : found) {
@@ -103,7 +108,8 @@ po::options_description ConfigManager::closeRegistration() {
 
   // Check for circular dependencies
   for (auto& pair : m_config_dictionary) {
-    auto found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first));
+    std::set<std::type_index> visited{};
+    auto                      found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first), visited);
     if (!found.empty()) {
       logger.error() << "Found circular dependency between configurations:";
       int count = 0;
-- 
2.43.0


From 4dd66e940184965252df18ae3b696d5d0253c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 32/34] fix: configurations declaring each other as
 dependencies recursed without end when registered

---
 .../Configuration/_impl/ConfigManager.icpp          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Configuration/Configuration/_impl/ConfigManager.icpp b/Configuration/Configuration/_impl/ConfigManager.icpp
index 9287239..5a7db2e 100644
--- a/Configuration/Configuration/_impl/ConfigManager.icpp
+++ b/Configuration/Configuration/_impl/ConfigManager.icpp
@@ -32,9 +32,16 @@ void ConfigManager::registerConfiguration() {
     throw Elements::Exception() << "Manager with id '" << m_id << "' is closed "
                                 << "for configuration registration";
   }
-  // If the configuration is already registered we do nothing
-  if (m_config_dictionary[{typeid(T)}] == nullptr) {
-    m_config_dictionary[{typeid(T)}].reset(new T{m_id});
+  // If the configuration is already registered, or its constructor (which registers
+  // its dependencies) is being executed, we do nothing
+  if (m_config_dictionary.find(typeid(T)) == m_config_dictionary.end()) {
+    auto& config_ptr = m_config_dictionary[{typeid(T)}];
+    try {
+      config_ptr.reset(new T{m_id});
+    } catch (...) {
+      m_config_dictionary.erase(typeid(T));
+      throw;
+    }
   }
 }
 
-- 
2.43.0


From 1e75988f5eeed87e8417c13128be1e523e15040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 33/34] fix: the neighbourhood of linearUnitDisk reaches cells
 beyond the best matching one

The differences of the unsigned coordinates were taken before the conversion to double, so a cell with a larger
coordinate than the best matching one was never close to it.
---
 SOM/src/lib/NeihbourhoodFunc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SOM/src/lib/NeihbourhoodFunc.cpp b/SOM/src/lib/NeihbourhoodFunc.cpp
index f18e643..91dc232 100644
--- a/SOM/src/lib/NeihbourhoodFunc.cpp
+++ b/SOM/src/lib/NeihbourhoodFunc.cpp
@@ -29,8 +29,8 @@ Signature linearUnitDisk(double initial_radius) {
                     std::size_t total_iterations) -> double {
     double iter_factor = 1.0 * (total_iterations - iteration) / total_iterations;
     iter_factor        = iter_factor * iter_factor;  // We compare the squared distances
-    double x           = bmu.first - cell.first;
-    double y           = bmu.second - cell.second;
+    double x           = static_cast<double>(bmu.first) - cell.first;
+    double y           = static_cast<double>(bmu.second) - cell.second;
     double dist_square = x * x + y * y;
     if (dist_square < r_square * iter_factor) {
       return 1.;
-- 
2.43.0


From 669b8db8723fa7f03a6069505e026d9c1cedce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:14 +0000
Subject: [PATCH 34/34] fix: a handler dropped in one thread no longer removes
 the one made meanwhile by another

---
 FilePool/src/lib/FileManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index 461b6d1..211284a 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -106,7 +106,11 @@ std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem
         auto this_shared = this_weak.lock();
         if (this_shared) {
           std::lock_guard<std::mutex> manager_lock(this_shared->m_mutex);
-          this_shared->m_handlers.erase(canonical);
+          // Another thread may have replaced the expired handler before we got the lock
+          auto entry = this_shared->m_handlers.find(canonical);
+          if (entry != this_shared->m_handlers.end() && entry->second.expired()) {
+            this_shared->m_handlers.erase(entry);
+          }
         }
       }
       delete obj;
-- 
2.43.0

