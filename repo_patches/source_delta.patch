From fa5dc2d762e1e47342d0a2e3fdb61630588843aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:56 +0000
Subject: [PATCH 01/40] fix: deregister a grid from its old data when it is
 assigned another grid

The assignment operators of the allocation policies replaced the shared data
without removing the updater registered with the old data. Resizing a grid that
still used the old data then changed the extent of the reassigned grid, or called
into a grid that had been destroyed.
---
 src/grid/gridstorage/single-array-allocation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index fd0084e..c2906bf 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -296,6 +296,7 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayInstantAllocation<T, rank> &SingleArrayInstantAllocation<T, rank>::operator=(const SingleArrayInstantAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
@@ -401,6 +402,7 @@ namespace schnek
     template <typename T, size_t rank>
     SingleArrayLazyAllocation<T, rank> &SingleArrayLazyAllocation<T, rank>::operator=(const SingleArrayLazyAllocation<T, rank> &other) 
     {
+        this->data->removeUpdater(this);
         this->data = other.data;
         this->size = other.size;
         this->range = other.range;
-- 
2.43.0


From 899becb64685c8131b4059dbd878cb97f86699e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:26 +0000
Subject: [PATCH 02/40] fix: make LazyArrayGridStorage usable as a grid storage
 policy

SingleArrayLazyAllocation declared its index and range types over size_t while the
storage base hands out and passes int indices, so that Grid<..., LazyArrayGridStorage>
(as shown in the manual) did not compile. Its assignment operator also left the
buffer size of the old data in place, so that a following resize could reuse a
buffer that was too small.
---
 src/grid/gridstorage/single-array-allocation.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/grid/gridstorage/single-array-allocation.hpp b/src/grid/gridstorage/single-array-allocation.hpp
index c2906bf..20e0da7 100644
--- a/src/grid/gridstorage/single-array-allocation.hpp
+++ b/src/grid/gridstorage/single-array-allocation.hpp
@@ -186,10 +186,10 @@ namespace schnek
     {
     public:
         /// The grid index type
-        typedef Array<size_t, rank> IndexType;
+        typedef Array<int, rank> IndexType;
 
         /// The grid range type
-        typedef Range<size_t, rank> RangeType;
+        typedef Range<int, rank> RangeType;
     protected:
         struct SizeInfo {
             IndexType lo;
@@ -407,6 +407,10 @@ namespace schnek
         this->size = other.size;
         this->range = other.range;
         this->dims = other.dims;
+        this->bufSize = other.bufSize;
+        this->avgSize = other.avgSize;
+        this->avgVar = other.avgVar;
+        this->r = other.r;
         this->data->addUpdater(this, [this](const SizeInfo& sizeInfo) { this->updateSizeInfo(sizeInfo); });
         return *this;
     };
-- 
2.43.0


From 5e0a3269fc098b19f57c4e6365cefc4fba30264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:39 +0000
Subject: [PATCH 03/40] fix: iterating over an empty Range visits no position

begin() of a range with lo>hi in some dimension pointed at lo, which is not inside
the range, and iteration visited at least one position outside it.
---
 src/grid/range.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index fcf1129..5557e21 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -350,7 +350,10 @@ class Range {
 
     /// Creates an iterator pointing to the beginning of the rectangle
     iterator begin() {
-      return iterator(*this, this->getLo());
+      // an empty rectangle has nothing to visit
+      bool empty = false;
+      for (size_t d=0; d<rank; ++d) empty = empty || (lo[d] > hi[d]);
+      return iterator(*this, this->getLo(), empty);
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-- 
2.43.0


From 1c0897998b0f7bf620fdd881e57539d4503981bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:41 +0000
Subject: [PATCH 04/40] fix: make SubGrid usable again and keep its extents in
 step with resize

---
 src/grid/range.hpp   | 4 ++--
 src/grid/subgrid.hpp | 5 +++--
 src/grid/subgrid.t   | 4 +++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/grid/range.hpp b/src/grid/range.hpp
index 5557e21..f1f2596 100644
--- a/src/grid/range.hpp
+++ b/src/grid/range.hpp
@@ -349,7 +349,7 @@ class Range {
     };
 
     /// Creates an iterator pointing to the beginning of the rectangle
-    iterator begin() {
+    iterator begin() const {
       // an empty rectangle has nothing to visit
       bool empty = false;
       for (size_t d=0; d<rank; ++d) empty = empty || (lo[d] > hi[d]);
@@ -357,7 +357,7 @@ class Range {
     }
 
     /// Creates an iterator pointing to a position after the end of the rectangle
-    iterator end() {
+    iterator end() const {
       return iterator(*this, this->getLo(), true);
     }
 };
diff --git a/src/grid/subgrid.hpp b/src/grid/subgrid.hpp
index aad8191..0914a76 100644
--- a/src/grid/subgrid.hpp
+++ b/src/grid/subgrid.hpp
@@ -42,6 +42,7 @@ class SubGridStorage {
     typedef Array<int,rank> IndexType;
     typedef BaseGrid BaseGridType;
     typedef Range<int, rank> DomainType;
+    typedef DomainType RangeType;
   protected:
     BaseGridType *baseGrid;
     DomainType domain;
@@ -133,8 +134,8 @@ class SubGridStorage {
     storage_iterator begin() { return storage_iterator(domain.begin(), baseGrid); }
     storage_iterator end() { return storage_iterator(domain.end(), baseGrid); }
 
-    const_storage_iterator cbegin() const { return const_storage_iterator(domain.cbegin(), baseGrid); }
-    const_storage_iterator cend() const { return const_storage_iterator(domain.cend(), baseGrid); }
+    const_storage_iterator cbegin() const { return const_storage_iterator(domain.begin(), baseGrid); }
+    const_storage_iterator cend() const { return const_storage_iterator(domain.end(), baseGrid); }
 
     void setBaseGrid(BaseGridType &baseGrid_) { baseGrid = &baseGrid_; }
 
diff --git a/src/grid/subgrid.t b/src/grid/subgrid.t
index c7b2563..a76b7dd 100644
--- a/src/grid/subgrid.t
+++ b/src/grid/subgrid.t
@@ -33,7 +33,7 @@ template<
   class BaseGrid
 >
 SubGridStorage<T, rank, BaseGrid>::SubGridStorage()
-  : baseGrid(NULL), domain(0,0), dims(0)
+  : baseGrid(NULL), domain(), dims(0)
 {}
 
 template<
@@ -56,6 +56,8 @@ template<
 void SubGridStorage<T, rank, BaseGrid>::resize(const IndexType &low_, const IndexType &high_)
 {
     domain = DomainType(low_, high_);
+    for (size_t d = 0; d < rank; d++)
+      dims[d] = high_[d] - low_[d] + 1;
 }
 
 template<
-- 
2.43.0


From 227e8d6215abbebfa3e89f2d2bac33ca68610a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:16 +0000
Subject: [PATCH 05/40] fix: make GridTransform usable with the current grid
 template interface

---
 src/grid/gridtransform.hpp | 15 ++++++++-------
 src/grid/gridtransform.t   |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/grid/gridtransform.hpp b/src/grid/gridtransform.hpp
index fc50cf1..c0e1cc1 100644
--- a/src/grid/gridtransform.hpp
+++ b/src/grid/gridtransform.hpp
@@ -34,13 +34,14 @@ namespace schnek {
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
 class GridTransformStorage {
   public:
     typedef Array<int,rank> IndexType;
+    typedef Range<int,rank> RangeType;
     typedef BaseGrid BaseGridType;
     typedef Transformation TransformationType;
   protected:
@@ -52,9 +53,9 @@ class GridTransformStorage {
       protected:
         typedef typename BaseGridType::const_storage_iterator BaseIter;
         BaseIter baseIter;
-        GridTransformStorage &storage;
+        const GridTransformStorage &storage;
 
-        const_storage_iterator(BaseIter baseIter, GridTransformStorage &storage)
+        const_storage_iterator(BaseIter baseIter, const GridTransformStorage &storage)
           : baseIter(baseIter), storage(storage) {}
 
         friend class GridTransformStorage;
@@ -128,7 +129,7 @@ class GridTransformStorage {
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy = GridNoArgCheck
+  template<size_t> class CheckingPolicy = GridNoArgCheck
 >
 class GridTransform
   : public internal::GridBase
@@ -137,7 +138,7 @@ class GridTransform
       BaseGrid::Rank,
       CheckingPolicy<BaseGrid::Rank>,
       GridTransformStorage<
-        typename BaseGrid::value_type,
+        typename Transformation::value_type,
         BaseGrid::Rank,
         BaseGrid,
         Transformation
@@ -151,7 +152,7 @@ class GridTransform
           BaseGrid::Rank,
           CheckingPolicy<BaseGrid::Rank>,
           GridTransformStorage<
-            typename BaseGrid::value_type,
+            typename Transformation::value_type,
             BaseGrid::Rank,
             BaseGrid,
             Transformation
@@ -185,7 +186,7 @@ class TypeCastTransform
   public:
     typedef DestType value_type;
   public:
-    DestType operator()(SrcType x) {return (DestType)x; }
+    DestType operator()(SrcType x) const {return (DestType)x; }
 };
 
 } // namespace schnek
diff --git a/src/grid/gridtransform.t b/src/grid/gridtransform.t
index d644fed..696e500 100644
--- a/src/grid/gridtransform.t
+++ b/src/grid/gridtransform.t
@@ -29,7 +29,7 @@ namespace schnek
 
 template<
   typename T,
-  int rank,
+  size_t rank,
   class BaseGrid,
   typename Transformation
 >
@@ -40,7 +40,7 @@ GridTransformStorage<T, rank, BaseGrid, Transformation>::GridTransformStorage()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
   : ParentType()
@@ -49,7 +49,7 @@ GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform()
 template<
   class BaseGrid,
   typename Transformation,
-  template<int> class CheckingPolicy
+  template<size_t> class CheckingPolicy
 >
 GridTransform<BaseGrid, Transformation, CheckingPolicy>::GridTransform(BaseGridType &baseGrid_)
   : ParentType()
-- 
2.43.0


From 94e89907699fd20771cfecad4eff1c826a66eca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 06/40] fix: allow indexing a grid with an array expression

---
 src/grid/grid.hpp | 4 ++--
 src/grid/grid.t   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/grid.hpp b/src/grid/grid.hpp
index 27f153e..bbb9d67 100644
--- a/src/grid/grid.hpp
+++ b/src/grid/grid.hpp
@@ -96,10 +96,10 @@ namespace schnek {
         SCHNEK_INLINE T  operator[](const Array<int,rank,ArrayCheckingPolicy>& pos) const; // read
 
         /** index operator, writing */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T& operator[](const ArrayExpression<Operator, Length>& pos); // write
         /** index operator, reading */
-        template<class Operator, int Length>
+        template<class Operator, size_t Length>
         SCHNEK_INLINE T  operator[](const ArrayExpression<Operator, Length>& pos) const; // read
 
         /** index operator, for 1D grids, writing */
diff --git a/src/grid/grid.t b/src/grid/grid.t
index 3618f59..91edafd 100644
--- a/src/grid/grid.t
+++ b/src/grid/grid.t
@@ -118,7 +118,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T& GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos)
 {
@@ -131,7 +131,7 @@ template<
   class CheckingPolicy,
   class StoragePolicy
 >
-template<class Operator, int Length>
+template<class Operator, size_t Length>
 SCHNEK_INLINE T GridBase<T, rank, CheckingPolicy, StoragePolicy>
   ::operator[](const ArrayExpression<Operator, Length>& pos) const
 {
-- 
2.43.0


From db34eb1d25071af46a3d51f0b1fe721aec6f4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:20 +0000
Subject: [PATCH 07/40] fix: make the ghost sub-grids of a Boundary usable

---
 src/grid/boundary.hpp | 4 ++--
 src/grid/boundary.t   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grid/boundary.hpp b/src/grid/boundary.hpp
index 0870125..f58a68b 100644
--- a/src/grid/boundary.hpp
+++ b/src/grid/boundary.hpp
@@ -134,7 +134,7 @@ class Boundary
      * @return A sub-grid containing ghost cells
      */
     template<class GridType>
-    SubGrid<GridType, CheckingPolicy> getGhostBoundary(size_t dim, bound b, GridType &grid);
+    SubGrid<GridType> getGhostBoundary(size_t dim, bound b, GridType &grid);
 
     /** Returns sub-grid containing only the boundary domain.
      * The bounadry domain has a thickness determined by the number of ghost cells.
@@ -150,7 +150,7 @@ class Boundary
       template<size_t> class CheckingPolicy2,
       template<typename, size_t> class StoragePolicy
     >
-    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy>, CheckingPolicy>
+    SubGrid<Field<T,rank,CheckingPolicy2,StoragePolicy> >
       getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field);
 };
 
diff --git a/src/grid/boundary.t b/src/grid/boundary.t
index 96bd12c..3d7ba43 100644
--- a/src/grid/boundary.t
+++ b/src/grid/boundary.t
@@ -141,10 +141,10 @@ template<
   template<size_t> class CheckingPolicy
 >
 template<class GridType>
-SubGrid<GridType, CheckingPolicy> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
+SubGrid<GridType> Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, GridType &grid)
 {
         DomainType bounds = getGhostDomain(dim, b);
-        return SubGrid<GridType, CheckingPolicy>(bounds.getLo(), bounds.getHi(), grid);
+        return SubGrid<GridType>(bounds.getLo(), bounds.getHi(), grid);
 }
 
 template<
@@ -156,11 +156,11 @@ template<
   template<size_t> class CheckingPolicy2,
   template<typename, size_t> class StoragePolicy
 >
-SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>
+SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >
   Boundary<rank,CheckingPolicy>::getGhostBoundary(size_t dim, bound b, Field<T,rank,CheckingPolicy2,StoragePolicy> &field)
 {
         DomainType bounds = getBoundaryDomain(dim, b, field.getStagger()[dim]);
-        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy>, CheckingPolicy>(bounds.getLo(), bounds.getHi(), field);
+        return SubGrid<Field<T,rank,CheckingPolicy2, StoragePolicy> >(bounds.getLo(), bounds.getHi(), field);
 }
 
 } // namespace schnek
-- 
2.43.0


From c8875c31ba782659450b3921781197f1b8d6a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:36 +0000
Subject: [PATCH 08/40] fix: subdivide global domains that do not start at
 index zero

---
 src/grid/domainsubdivision.hpp | 4 ++--
 src/grid/mpisubdivision.t      | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index cbc227d..2cf5ce9 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -141,8 +141,8 @@ class DomainSubdivision {
       {
         const T &lo = globalExtent.getLo()[i];
         T dx = (globalExtent.getHi()[i]-lo) / (T)(globalGridSize.getHi()[i] - globalGridSize.getLo()[i] + 1);
-        localDomainMin[i] = lo + this->getInnerLo()[i]*dx;
-        localDomainMax[i] = lo + (this->getInnerHi()[i] + 1)*dx;
+        localDomainMin[i] = lo + (this->getInnerLo()[i] - globalGridSize.getLo()[i])*dx;
+        localDomainMax[i] = lo + (this->getInnerHi()[i] - globalGridSize.getLo()[i] + 1)*dx;
       }
       return Range<T, Rank, CheckingPolicy>(localDomainMin,localDomainMax);
     }
diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 3b87a65..4bb9172 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -104,15 +104,15 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-1.)/double(dims[i]);
+    width[i] = (High[i]-Low[i]-1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
     else
-      Low[i] = -delta;
+      Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
     else
       High[i] = High[i]+delta;
 
-- 
2.43.0


From e8be9201a06a8d652e5bd6be71a7f8ec158140af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:36 +0000
Subject: [PATCH 09/40] fix: global domain of a serial subdivision excludes the
 ghost cells

---
 src/grid/domainsubdivision.hpp | 5 ++++-
 src/grid/domainsubdivision.t   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grid/domainsubdivision.hpp b/src/grid/domainsubdivision.hpp
index 2cf5ce9..5748a1e 100644
--- a/src/grid/domainsubdivision.hpp
+++ b/src/grid/domainsubdivision.hpp
@@ -250,6 +250,9 @@ class SerialSubdivision : public DomainSubdivision<GridType>
 
     /// The positions of the upper corner of the local piece of the grid
     LimitType High;
+
+    /// The global domain excluding ghost cells
+    DomainType globalDomain;
   public:
     using DomainSubdivision<GridType>::init;
     using DomainSubdivision<GridType>::exchange;
@@ -267,7 +270,7 @@ class SerialSubdivision : public DomainSubdivision<GridType>
     void init(const LimitType &low, const LimitType &high, int delta);
 
     /// Return the global domain size excluding ghost cells
-    const DomainType &getGlobalDomain() const { return this->bounds->getDomain(); }
+    const DomainType &getGlobalDomain() const { return globalDomain; }
 
     /** @brief Exchanges the boundaries in direction specified by dim.
      *
diff --git a/src/grid/domainsubdivision.t b/src/grid/domainsubdivision.t
index cd6206e..c2aa70e 100644
--- a/src/grid/domainsubdivision.t
+++ b/src/grid/domainsubdivision.t
@@ -40,6 +40,7 @@ template<class GridType>
 void SerialSubdivision<GridType>::init(const LimitType &low, const LimitType &high, int delta)
 {
   this->bounds = std::make_shared<BoundaryType>(low, high, delta);
+  globalDomain = this->bounds->getInnerDomain();
 }
 
 template<class GridType>
-- 
2.43.0


From ecf5441f3a96d10d568259be58a5a64a1261a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:48 +0000
Subject: [PATCH 10/40] fix: take the grid extents into account for every
 factor in equalFactors

The first prime factor of the number of processes was always assigned to
the first dimension, whatever the weights. A prime number of processes, for
example, was always spread over dimension zero, even if that dimension is
only one cell wide.
---
 src/util/factor.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/util/factor.cpp b/src/util/factor.cpp
index f5ab30e..c9ae201 100644
--- a/src/util/factor.cpp
+++ b/src/util/factor.cpp
@@ -68,11 +68,8 @@ void schnek::equalFactors
     return;
   }
 
-  factors[0] = allfact.front();
-  for (int i=1; i<nfact; ++i) factors[i] = 1;
+  for (int i=0; i<nfact; ++i) factors[i] = 1;
 
-  allfact.pop_front();
-  if (allfact.empty()) return;
   distribute(factors, allfact, weights);
 }
 
-- 
2.43.0


From 852946db6d2067ed9957b0a3948c5ab34451f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:34 +0000
Subject: [PATCH 11/40] fix: share the cells evenly between the processes of an
 MPI subdivision

The width of the pieces was calculated from two cells less than the domain
has, so that processes could be left with fewer cells than there are ghost
cells, or none at all, even though the domain has enough cells for all
processes. The extents passed to equalFactors were one cell short, which
gave single-cell dimensions a weight of zero.
---
 src/grid/mpisubdivision.t | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grid/mpisubdivision.t b/src/grid/mpisubdivision.t
index 4bb9172..bc06865 100644
--- a/src/grid/mpisubdivision.t
+++ b/src/grid/mpisubdivision.t
@@ -76,7 +76,7 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
 
   for (size_t i=0; i<Rank; ++i)
   {
-    box[i] = High[i]-Low[i];
+    box[i] = High[i]-Low[i]+1;
     periodic[i] = true;
   }
 
@@ -104,15 +104,15 @@ void MPICartSubdivision<GridType>::init(const LimitType &lo, const LimitType &hi
     errorCode = MPI_Cart_shift(comm,i,1,&prevcoord[i],&nextcoord[i]);
     SCHNEK_ASSERT(errorCode == MPI_SUCCESS, "Could not shift Cartesian coordinates ("+boost::lexical_cast<std::string>(errorCode)+")");
 
-    width[i] = (High[i]-Low[i]-1.)/double(dims[i]);
+    width[i] = (High[i]-Low[i]+1.)/double(dims[i]);
 
     if (mycoord[i]>0)
-      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta+1;
+      Low[i] = lo[i]+int(width[i]*mycoord[i])-delta;
     else
       Low[i] = lo[i]-delta;
 
     if (mycoord[i]<(dims[i]-1))
-      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))+delta;
+      High[i] = lo[i]+int(width[i]*(mycoord[i]+1))-1+delta;
     else
       High[i] = High[i]+delta;
 
-- 
2.43.0


From d4b603c76c92dc54d593b108cd17b86d8ee23dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:39 +0000
Subject: [PATCH 12/40] fix: scan tokens of any length and report text that is
 not a token

Tokens longer than the scan buffer made the scanner loop forever, an invalid
character silently dropped the rest of the deck, as did an unterminated string
or comment, and a line comment at the very end of the deck was an error.
---
 parser/deckscanner.rl               | 32 ++++++++++++++++++-----------
 src/parser/internal/deckscanner.cpp | 32 ++++++++++++++++++-----------
 src/parser/tokenlist.hpp            |  6 ++++++
 3 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index ebacad4..b21f1f8 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -7,9 +7,11 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -103,7 +105,7 @@ using namespace schnek;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buf(BUFSIZE);
   int cs; 
   int act; 
   int have = 0;
@@ -115,16 +117,19 @@ void DeckScanner::do_scan(TokenList &tlist)
   %% write init;
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have + 1 >= (int)buf.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      std::ptrdiff_t te_offset = te - ts;
+      buf.resize(2*buf.size());
+      ts = buf.data();
+      te = ts + te_offset;
     }
 
+    /* One character is kept free for the newline added at the end of file. */
+    char *p = buf.data() + have, *pe, *eof = 0;
+    int len, space = buf.size() - 1 - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
@@ -132,6 +137,7 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      *pe++ = '\n';
       eof = pe;
       done = 1;
     }
@@ -139,8 +145,7 @@ void DeckScanner::do_scan(TokenList &tlist)
     %% write exec;
 
     if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+      throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
@@ -148,9 +153,12 @@ void DeckScanner::do_scan(TokenList &tlist)
     else {
       /* There is a prefix to preserve, shift it over. */
       have = pe - ts;
-      memmove( buf, ts, have );
-      te = buf + (te-ts);
-      ts = buf;
+      memmove( buf.data(), ts, have );
+      te = buf.data() + (te-ts);
+      ts = buf.data();
     }
   }
+
+  if ( cs != deck_en_main )
+    throw ParserError("Unexpected end of file", Token(tlist.getFilename(), cur_line, 0));
 }
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index aa6c180..2942b61 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -9,9 +9,11 @@
 #include <string>
 #include <cstring>
 #include <cstdio>
+#include <vector>
 #include "../deckscanner.hpp"
 #include "../deckgrammar.hpp"
 #include "../tokenlist.hpp"
+#include "../parsertoken.hpp"
 
 using namespace schnek;
 
@@ -216,7 +218,7 @@ static const int deck_en_main = 10;
     
 void DeckScanner::do_scan(TokenList &tlist)
 {
-  static char buf[BUFSIZE];
+  std::vector<char> buf(BUFSIZE);
   int cs; 
   int act; 
   int have = 0;
@@ -237,16 +239,19 @@ void DeckScanner::do_scan(TokenList &tlist)
 
 
   while ( !done ) {
-    char *p = buf + have, *pe, *eof = 0;
-    int len, space = BUFSIZE - have;
-    
-    if ( space == 0 ) {
+    if ( have + 1 >= (int)buf.size() ) {
       /* We've used up the entire buffer storing an already-parsed token
        * prefix that must be preserved. */
-      std::cerr << "OUT OF BUFFER SPACE\n";
-      // exit(1);
+      std::ptrdiff_t te_offset = te - ts;
+      buf.resize(2*buf.size());
+      ts = buf.data();
+      te = ts + te_offset;
     }
 
+    /* One character is kept free for the newline added at the end of file. */
+    char *p = buf.data() + have, *pe, *eof = 0;
+    int len, space = buf.size() - 1 - have;
+
     input->read(p,space);
     len = input->gcount();
     //len = fread( p, 1, space, *input );
@@ -254,6 +259,7 @@ void DeckScanner::do_scan(TokenList &tlist)
 
     /* Check if this is the end of file. */
     if ( len < space ) {
+      *pe++ = '\n';
       eof = pe;
       done = 1;
     }
@@ -548,8 +554,7 @@ _again:
 
 
     if ( cs == deck_error ) {
-      std::cerr << "TOKENISER ERROR " << cur_line << "\n";
-      break;
+      throw ParserError("Unexpected character", Token(tlist.getFilename(), cur_line, 0));
     }
 
     if ( ts == 0 )
@@ -557,9 +562,12 @@ _again:
     else {
       /* There is a prefix to preserve, shift it over. */
       have = pe - ts;
-      memmove( buf, ts, have );
-      te = buf + (te-ts);
-      ts = buf;
+      memmove( buf.data(), ts, have );
+      te = buf.data() + (te-ts);
+      ts = buf.data();
     }
   }
+
+  if ( cs != deck_en_main )
+    throw ParserError("Unexpected end of file", Token(tlist.getFilename(), cur_line, 0));
 }
diff --git a/src/parser/tokenlist.hpp b/src/parser/tokenlist.hpp
index 7dfcecd..75e7d47 100644
--- a/src/parser/tokenlist.hpp
+++ b/src/parser/tokenlist.hpp
@@ -137,6 +137,12 @@ class TokenList
       tlist.clear();
     }
 
+    /// Returns the name of the file from which the tokens are read
+    std::string getFilename() const
+    {
+      return filename;
+    }
+
     /// Insert an individual token onto the list.
     void insert(int line, int token)
     {
-- 
2.43.0


From f27b466aa51d828eb488c5516bfcda55baaa4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:39 +0000
Subject: [PATCH 13/40] fix: evaluate chains of operators from left to right

Chains mixing types, such as 1.5-2-3, 3.0*7/2 or 'a'+1+2, were grouped from the
right because the type conversion hides the right operand from BinaryOp. The
grammar is now left recursive. The parser tables are regenerated.
---
 parser/deckgrammar.y       |  12 +-
 src/parser/deckgrammar.inc | 400 +++++++++++++++++--------------------
 2 files changed, 192 insertions(+), 220 deletions(-)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index b5bad7b..078dbcb 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -42,20 +42,16 @@ declaration ::= error.
 
 assignment(LHS) ::= IDENTIFIER(iden) EQUAL expression(expr). { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(expr.getType()) << " " << expr.getString()); LHS.evaluateExpression(iden,expr); }   // --done--
 
-expression(LHS) ::= signed_term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-expression(LHS) ::= signed_term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
+expression(LHS) ::= expression(A) PLUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
+expression(LHS) ::= expression(A) MINUS term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
 expression(LHS) ::= signed_term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-unsigned_expression(LHS) ::= term_expression(A) PLUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorAdd>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(A) MINUS unsigned_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorSubtract>(A,B); }  // --done--
-unsigned_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
-
 signed_term_expression(LHS) ::= PLUS term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 signed_term_expression(LHS) ::= MINUS term_expression(A). { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(A.getType()) << " " << A.getString()); LHS.assignUnaryOperator<expression::OperatorNeg>(A); }  // --done--
 signed_term_expression(LHS) ::= term_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 
-term_expression(LHS) ::= exp_expression(A) TIMES term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
-term_expression(LHS) ::= exp_expression(A) DIVIDE term_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) TIMES exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorMultiply>(A,B); }  // --done--
+term_expression(LHS) ::= term_expression(A) DIVIDE exp_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorDivide>(A,B); }  // --done--
 term_expression(LHS) ::= exp_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
 exp_expression(LHS) ::= atomic_expression(A) EXPONENT signed_atomic_expression(B). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(A.getType()) << " " << A.getString()); LHS.assignBinaryOperator<expression::OperatorExponent>(A,B); }  // --done--
 exp_expression(LHS) ::= atomic_expression(RHS). { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(RHS.getType()) << " " << RHS.getString()); LHS = RHS; }  // --done--
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index cd5d02f..42d2212 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -60,7 +60,7 @@
 **                       defined, then do no error processing.
 */
 #define YYCODETYPE unsigned char
-#define YYNOCODE 41
+#define YYNOCODE 40
 #define YYACTIONTYPE unsigned char
 #define ParseTOKENTYPE ParserToken
 struct YYMINORTYPE {
@@ -69,7 +69,7 @@ struct YYMINORTYPE {
   YYMINORTYPE(int yyinit_, ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(yyinit_), yy0(yy0_) {}
   YYMINORTYPE(ParseTOKENTYPE yy0_=ParseTOKENTYPE()) : yyinit(0), yy0(yy0_) {}
   YYMINORTYPE &operator=(const YYMINORTYPE &rhs) { yyinit = rhs.yyinit; yy0 = rhs.yy0; return *this;}
-  int yy81;
+  int yy79;
 };
 #ifndef YYSTACKDEPTH
 #define YYSTACKDEPTH 100
@@ -78,10 +78,10 @@ struct YYMINORTYPE {
 #define ParseARG_PDECL
 #define ParseARG_FETCH
 #define ParseARG_STORE
-#define YYNSTATE 74
-#define YYNRULE 48
+#define YYNSTATE 69
+#define YYNRULE 45
 #define YYERRORSYMBOL 22
-#define YYERRSYMDT yy81
+#define YYERRSYMDT yy79
 #define YY_NO_ACTION      (YYNSTATE+YYNRULE+2)
 #define YY_ACCEPT_ACTION  (YYNSTATE+YYNRULE+1)
 #define YY_ERROR_ACTION   (YYNSTATE+YYNRULE)
@@ -151,66 +151,63 @@ static const YYMINORTYPE yyzerominor(0);
 **  yy_default[]       Default action for each state.
 */
 static const YYACTIONTYPE yy_action[] = {
- /*     0 */    13,   12,   69,   23,   21,   31,    3,   58,   54,   32,
- /*    10 */    15,   17,   18,    4,   62,   55,   56,   57,   58,   44,
- /*    20 */    32,    1,   13,   12,    4,   16,   55,   56,   57,   58,
- /*    30 */    30,   32,   73,   66,   50,    4,   54,   55,   56,   57,
- /*    40 */     6,    7,   28,   63,   24,   74,   59,   21,   31,   33,
- /*    50 */    22,   54,   27,   37,   35,   19,   68,   23,   21,   31,
- /*    60 */    65,  124,   54,   54,   39,   40,   41,   64,   36,  123,
- /*    70 */     5,   42,   14,  124,   26,   34,   27,   36,   35,   19,
- /*    80 */    43,   14,    2,   26,   34,   60,    9,    8,   39,   40,
- /*    90 */    41,  124,   47,   23,   21,   31,   61,   24,   54,   59,
- /*   100 */    21,   31,   46,   24,   54,   59,   21,   31,   25,   24,
- /*   110 */    54,   59,   21,   31,  124,   58,   54,   32,  124,   29,
- /*   120 */    38,    4,    3,   55,   56,   57,   48,   23,   21,   31,
- /*   130 */    10,   11,   54,   53,   21,   31,  124,  124,   54,   67,
- /*   140 */    21,   31,  124,   71,   54,   49,   21,   31,   71,   70,
- /*   150 */    54,   45,   51,   20,   70,   54,   72,  124,   52,   21,
- /*   160 */    31,  124,  124,   54,
+ /*     0 */     8,    9,   21,   41,   44,   30,   45,   49,   45,   31,
+ /*    10 */    29,    8,    9,    3,   51,   46,   47,   48,   49,   37,
+ /*    20 */    31,    2,   15,   16,    3,   14,   46,   47,   48,   49,
+ /*    30 */    22,   31,   44,   30,    1,    3,   45,   46,   47,   48,
+ /*    40 */    62,  115,    5,   68,   10,   11,   32,   60,   23,   26,
+ /*    50 */    43,   44,   30,   69,   27,   45,   33,   58,   61,   18,
+ /*    60 */    33,   59,   61,   18,   54,   40,   34,   45,   65,   66,
+ /*    70 */    67,  116,   65,   66,   67,   20,   26,   43,   44,   30,
+ /*    80 */     6,    7,   45,   17,   26,   43,   44,   30,   13,   12,
+ /*    90 */    45,   28,   26,   43,   44,   30,  116,  116,   45,   49,
+ /*   100 */    63,   31,   39,   30,  116,    3,   45,   46,   47,   48,
+ /*   110 */    62,   42,   30,   36,   10,   45,   32,   60,   24,   53,
+ /*   120 */    44,   30,   45,  116,   45,   25,   56,   44,   30,  116,
+ /*   130 */    56,   45,   55,  116,   38,   19,   55,  116,   57,  116,
+ /*   140 */     6,    7,   35,   64,  116,    2,  116,    4,  116,  116,
+ /*   150 */    50,  116,  116,  116,   52,
 };
 static const YYCODETYPE yy_lookahead[] = {
- /*     0 */     1,    2,   33,   34,   35,   36,   13,    8,   39,   10,
- /*    10 */     5,    1,    2,   14,   15,   16,   17,   18,    8,    6,
- /*    20 */    10,   14,    1,    2,   14,   12,   16,   17,   18,    8,
- /*    30 */    10,   10,    6,   36,   37,   14,   39,   16,   17,   18,
- /*    40 */     1,    2,    8,   31,   32,    0,   34,   35,   36,    6,
- /*    50 */    38,   39,    7,   11,    9,   10,   33,   34,   35,   36,
- /*    60 */    36,   40,   39,   39,   19,   20,   21,   15,   22,   23,
- /*    70 */    24,   25,   26,   40,   28,   29,    7,   22,    9,   10,
- /*    80 */    25,   26,   12,   28,   29,   15,    1,    2,   19,   20,
- /*    90 */    21,   40,   33,   34,   35,   36,   31,   32,   39,   34,
- /*   100 */    35,   36,   31,   32,   39,   34,   35,   36,   31,   32,
- /*   110 */    39,   34,   35,   36,   40,    8,   39,   10,   40,   10,
- /*   120 */    11,   14,   13,   16,   17,   18,   33,   34,   35,   36,
- /*   130 */     3,    4,   39,   34,   35,   36,   40,   40,   39,   34,
- /*   140 */    35,   36,   40,   22,   39,   34,   35,   36,   22,   28,
- /*   150 */    39,   30,   36,   27,   28,   39,   30,   40,   34,   35,
- /*   160 */    36,   40,   40,   39,
+ /*     0 */     1,    2,   32,   35,   34,   35,   38,    8,   38,   10,
+ /*    10 */    10,    1,    2,   14,   15,   16,   17,   18,    8,    6,
+ /*    20 */    10,   13,    1,    2,   14,   12,   16,   17,   18,    8,
+ /*    30 */    32,   10,   34,   35,   14,   14,   38,   16,   17,   18,
+ /*    40 */    22,   23,   24,   25,   26,    5,   28,   29,   31,   32,
+ /*    50 */    33,   34,   35,    0,   37,   38,    7,    6,    9,   10,
+ /*    60 */     7,    6,    9,   10,   35,   36,    8,   38,   19,   20,
+ /*    70 */    21,   39,   19,   20,   21,   31,   32,   33,   34,   35,
+ /*    80 */     1,    2,   38,   31,   32,   33,   34,   35,    3,    4,
+ /*    90 */    38,   31,   32,   33,   34,   35,   39,   39,   38,    8,
+ /*   100 */    11,   10,   34,   35,   39,   14,   38,   16,   17,   18,
+ /*   110 */    22,   34,   35,   25,   26,   38,   28,   29,   32,   35,
+ /*   120 */    34,   35,   38,   39,   38,   32,   22,   34,   35,   39,
+ /*   130 */    22,   38,   28,   39,   30,   27,   28,   39,   30,   39,
+ /*   140 */     1,    2,   10,   11,   39,   13,   39,   12,   39,   39,
+ /*   150 */    15,   39,   39,   39,   15,
 };
-#define YY_SHIFT_USE_DFLT (-8)
-#define YY_SHIFT_MAX 32
-static const signed char yy_shift_ofst[] = {
- /*     0 */    69,   -1,   21,   21,   21,   45,  107,  107,  107,  107,
- /*    10 */   107,  107,  107,  107,   20,   10,   20,  107,  107,  109,
- /*    20 */    13,  127,   70,   39,   85,   52,   26,   34,   43,   42,
- /*    30 */    -7,    5,    7,
+#define YY_SHIFT_USE_DFLT (-2)
+#define YY_SHIFT_MAX 35
+static const short yy_shift_ofst[] = {
+ /*     0 */    49,   -1,   10,   10,   10,   53,   91,   91,   91,   91,
+ /*    10 */     0,   21,   91,   91,    0,   91,   91,  139,  132,   13,
+ /*    20 */    79,   85,   85,   79,   85,   85,   85,  135,   79,    8,
+ /*    30 */    40,   20,   51,   58,   55,   89,
 };
-#define YY_REDUCE_USE_DFLT (-32)
-#define YY_REDUCE_MAX 18
+#define YY_REDUCE_USE_DFLT (-33)
+#define YY_REDUCE_MAX 16
 static const signed char yy_reduce_ofst[] = {
- /*     0 */    46,   12,   65,   71,   77,   55,   93,   23,  -31,   59,
- /*    10 */   105,  111,   99,  124,  126,   -3,  121,  116,   24,
+ /*     0 */    18,   17,   44,   52,   60,   88,  -30,   -2,   86,   93,
+ /*    10 */   108,   29,   68,   77,  104,  -32,   84,
 };
 static const YYACTIONTYPE yy_default[] = {
- /*     0 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    10 */   122,  122,  122,  122,  122,  122,  122,  122,  122,  122,
- /*    20 */   122,  102,  122,   96,   93,  122,  122,  122,  122,  122,
- /*    30 */    87,  104,  115,   79,   80,   81,   82,   83,   84,  119,
- /*    40 */   120,  121,   76,   75,   77,   85,   90,   91,   94,  100,
- /*    50 */   103,  105,   97,   98,  111,  114,  116,  117,  118,   99,
- /*    60 */   109,  112,  110,  113,  108,  106,  107,  101,   95,   92,
- /*    70 */    88,   89,   86,   78,
+ /*     0 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    10 */   114,  114,  114,  114,  114,  114,  114,  114,  114,  114,
+ /*    20 */    85,   86,   87,  105,   89,   90,   91,  114,  104,   82,
+ /*    30 */    96,  107,  114,  114,  114,  114,   70,   72,   80,   92,
+ /*    40 */    95,   97,   93,   88,   94,  103,  106,  108,  109,  110,
+ /*    50 */   101,  102,  100,   98,   99,   83,   84,   81,   73,   74,
+ /*    60 */    75,   76,   77,   78,   79,  111,  112,  113,   71,
 };
 #define YY_SZ_ACTTAB (int)(sizeof(yy_action)/sizeof(yy_action[0]))
 
@@ -312,8 +309,8 @@ static const char *const yyTokenName[] = {
   "FLOAT_DECL",    "STRING_DECL",   "error",         "deck",        
   "statementlist",  "statement",     "typedecl",      "decllist",    
   "assignment",    "startblock",    "declaration",   "expression",  
-  "signed_term_expression",  "unsigned_expression",  "term_expression",  "exp_expression",
-  "atomic_expression",  "signed_atomic_expression",  "expressionlist",  "value",       
+  "term_expression",  "signed_term_expression",  "exp_expression",  "atomic_expression",
+  "signed_atomic_expression",  "expressionlist",  "value",       
 };
 #endif /* NDEBUG */
 
@@ -338,37 +335,34 @@ static const char *const yyRuleName[] = {
  /*  14 */ "declaration ::= assignment",
  /*  15 */ "declaration ::= error",
  /*  16 */ "assignment ::= IDENTIFIER EQUAL expression",
- /*  17 */ "expression ::= signed_term_expression PLUS unsigned_expression",
- /*  18 */ "expression ::= signed_term_expression MINUS unsigned_expression",
+ /*  17 */ "expression ::= expression PLUS term_expression",
+ /*  18 */ "expression ::= expression MINUS term_expression",
  /*  19 */ "expression ::= signed_term_expression",
- /*  20 */ "unsigned_expression ::= term_expression PLUS unsigned_expression",
- /*  21 */ "unsigned_expression ::= term_expression MINUS unsigned_expression",
- /*  22 */ "unsigned_expression ::= term_expression",
- /*  23 */ "signed_term_expression ::= PLUS term_expression",
- /*  24 */ "signed_term_expression ::= MINUS term_expression",
- /*  25 */ "signed_term_expression ::= term_expression",
- /*  26 */ "term_expression ::= exp_expression TIMES term_expression",
- /*  27 */ "term_expression ::= exp_expression DIVIDE term_expression",
- /*  28 */ "term_expression ::= exp_expression",
- /*  29 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
- /*  30 */ "exp_expression ::= atomic_expression",
- /*  31 */ "signed_atomic_expression ::= PLUS atomic_expression",
- /*  32 */ "signed_atomic_expression ::= MINUS atomic_expression",
- /*  33 */ "signed_atomic_expression ::= atomic_expression",
- /*  34 */ "atomic_expression ::= LBRACKET expression RBRACKET",
- /*  35 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
- /*  36 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
- /*  37 */ "atomic_expression ::= value",
- /*  38 */ "expressionlist ::= expressionlist COMMA expression",
- /*  39 */ "expressionlist ::= expression",
- /*  40 */ "value ::= PATHIDENTIFIER",
- /*  41 */ "value ::= IDENTIFIER",
- /*  42 */ "value ::= INTEGER",
- /*  43 */ "value ::= FLOAT",
- /*  44 */ "value ::= STRING",
- /*  45 */ "typedecl ::= INT_DECL",
- /*  46 */ "typedecl ::= FLOAT_DECL",
- /*  47 */ "typedecl ::= STRING_DECL",
+ /*  20 */ "signed_term_expression ::= PLUS term_expression",
+ /*  21 */ "signed_term_expression ::= MINUS term_expression",
+ /*  22 */ "signed_term_expression ::= term_expression",
+ /*  23 */ "term_expression ::= term_expression TIMES exp_expression",
+ /*  24 */ "term_expression ::= term_expression DIVIDE exp_expression",
+ /*  25 */ "term_expression ::= exp_expression",
+ /*  26 */ "exp_expression ::= atomic_expression EXPONENT signed_atomic_expression",
+ /*  27 */ "exp_expression ::= atomic_expression",
+ /*  28 */ "signed_atomic_expression ::= PLUS atomic_expression",
+ /*  29 */ "signed_atomic_expression ::= MINUS atomic_expression",
+ /*  30 */ "signed_atomic_expression ::= atomic_expression",
+ /*  31 */ "atomic_expression ::= LBRACKET expression RBRACKET",
+ /*  32 */ "atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET",
+ /*  33 */ "atomic_expression ::= IDENTIFIER LBRACKET RBRACKET",
+ /*  34 */ "atomic_expression ::= value",
+ /*  35 */ "expressionlist ::= expressionlist COMMA expression",
+ /*  36 */ "expressionlist ::= expression",
+ /*  37 */ "value ::= PATHIDENTIFIER",
+ /*  38 */ "value ::= IDENTIFIER",
+ /*  39 */ "value ::= INTEGER",
+ /*  40 */ "value ::= FLOAT",
+ /*  41 */ "value ::= STRING",
+ /*  42 */ "typedecl ::= INT_DECL",
+ /*  43 */ "typedecl ::= FLOAT_DECL",
+ /*  44 */ "typedecl ::= STRING_DECL",
 };
 #endif /* NDEBUG */
 
@@ -691,31 +685,28 @@ static const struct {
   { 31, 3 },
   { 31, 3 },
   { 31, 1 },
-  { 33, 3 },
-  { 33, 3 },
+  { 33, 2 },
+  { 33, 2 },
   { 33, 1 },
-  { 32, 2 },
-  { 32, 2 },
+  { 32, 3 },
+  { 32, 3 },
   { 32, 1 },
   { 34, 3 },
-  { 34, 3 },
   { 34, 1 },
+  { 36, 2 },
+  { 36, 2 },
+  { 36, 1 },
+  { 35, 3 },
+  { 35, 4 },
   { 35, 3 },
   { 35, 1 },
-  { 37, 2 },
-  { 37, 2 },
+  { 37, 3 },
   { 37, 1 },
-  { 36, 3 },
-  { 36, 4 },
-  { 36, 3 },
-  { 36, 1 },
-  { 38, 3 },
   { 38, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
-  { 39, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
+  { 38, 1 },
   { 26, 1 },
   { 26, 1 },
   { 26, 1 },
@@ -776,207 +767,192 @@ static void yy_reduce(
       case 3: /* statement ::= typedecl decllist SEMICOLON */
 #line 26 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 1"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yymsp[-1].minor.yy0.storeVariable(yymsp[-2].minor.yy0); }
-#line 780 "deckgrammar.c"
+#line 771 "deckgrammar.c"
         break;
       case 4: /* statement ::= assignment SEMICOLON */
 #line 27 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 2"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.updateVariable(); }
-#line 785 "deckgrammar.c"
+#line 776 "deckgrammar.c"
         break;
       case 7: /* statement ::= RBRACE */
 #line 30 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 3"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.endBlock(); }
-#line 790 "deckgrammar.c"
+#line 781 "deckgrammar.c"
         break;
       case 9: /* startblock ::= IDENTIFIER IDENTIFIER LBRACE */
 #line 33 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 4"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-2].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 795 "deckgrammar.c"
+#line 786 "deckgrammar.c"
         break;
       case 10: /* startblock ::= IDENTIFIER LBRACE */
 #line 34 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 5"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 800 "deckgrammar.c"
+#line 791 "deckgrammar.c"
         break;
       case 11: /* decllist ::= decllist COMMA declaration */
 #line 36 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 6"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 805 "deckgrammar.c"
+#line 796 "deckgrammar.c"
         break;
       case 12: /* decllist ::= declaration */
 #line 37 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 7"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 810 "deckgrammar.c"
+#line 801 "deckgrammar.c"
         break;
       case 13: /* declaration ::= IDENTIFIER */
 #line 39 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 8"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 815 "deckgrammar.c"
+#line 806 "deckgrammar.c"
         break;
       case 14: /* declaration ::= assignment */
 #line 40 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 9"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 820 "deckgrammar.c"
+#line 811 "deckgrammar.c"
         break;
       case 16: /* assignment ::= IDENTIFIER EQUAL expression */
 #line 43 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.evaluateExpression(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 825 "deckgrammar.c"
+#line 816 "deckgrammar.c"
         break;
-      case 17: /* expression ::= signed_term_expression PLUS unsigned_expression */
+      case 17: /* expression ::= expression PLUS term_expression */
 #line 45 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 830 "deckgrammar.c"
+#line 821 "deckgrammar.c"
         break;
-      case 18: /* expression ::= signed_term_expression MINUS unsigned_expression */
+      case 18: /* expression ::= expression MINUS term_expression */
 #line 46 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 835 "deckgrammar.c"
+#line 826 "deckgrammar.c"
         break;
       case 19: /* expression ::= signed_term_expression */
 #line 47 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 840 "deckgrammar.c"
+#line 831 "deckgrammar.c"
         break;
-      case 20: /* unsigned_expression ::= term_expression PLUS unsigned_expression */
+      case 20: /* signed_term_expression ::= PLUS term_expression */
 #line 49 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 14"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 845 "deckgrammar.c"
-        break;
-      case 21: /* unsigned_expression ::= term_expression MINUS unsigned_expression */
-#line 50 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 15"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 850 "deckgrammar.c"
-        break;
-      case 22: /* unsigned_expression ::= term_expression */
-#line 51 "deckgrammar.y"
-{ SCHNEK_TRACE_LOG(5,"Parser: Rule 16"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 855 "deckgrammar.c"
-        break;
-      case 23: /* signed_term_expression ::= PLUS term_expression */
-#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 860 "deckgrammar.c"
+#line 836 "deckgrammar.c"
         break;
-      case 24: /* signed_term_expression ::= MINUS term_expression */
-#line 54 "deckgrammar.y"
+      case 21: /* signed_term_expression ::= MINUS term_expression */
+#line 50 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 865 "deckgrammar.c"
+#line 841 "deckgrammar.c"
         break;
-      case 25: /* signed_term_expression ::= term_expression */
-#line 55 "deckgrammar.y"
+      case 22: /* signed_term_expression ::= term_expression */
+#line 51 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 870 "deckgrammar.c"
+#line 846 "deckgrammar.c"
         break;
-      case 26: /* term_expression ::= exp_expression TIMES term_expression */
-#line 57 "deckgrammar.y"
+      case 23: /* term_expression ::= term_expression TIMES exp_expression */
+#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorMultiply>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 875 "deckgrammar.c"
+#line 851 "deckgrammar.c"
         break;
-      case 27: /* term_expression ::= exp_expression DIVIDE term_expression */
-#line 58 "deckgrammar.y"
+      case 24: /* term_expression ::= term_expression DIVIDE exp_expression */
+#line 54 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorDivide>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 880 "deckgrammar.c"
+#line 856 "deckgrammar.c"
         break;
-      case 28: /* term_expression ::= exp_expression */
-#line 59 "deckgrammar.y"
+      case 25: /* term_expression ::= exp_expression */
+#line 55 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 885 "deckgrammar.c"
+#line 861 "deckgrammar.c"
         break;
-      case 29: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
-#line 60 "deckgrammar.y"
+      case 26: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
+#line 56 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorExponent>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 890 "deckgrammar.c"
+#line 866 "deckgrammar.c"
         break;
-      case 30: /* exp_expression ::= atomic_expression */
-#line 61 "deckgrammar.y"
+      case 27: /* exp_expression ::= atomic_expression */
+#line 57 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 895 "deckgrammar.c"
+#line 871 "deckgrammar.c"
         break;
-      case 31: /* signed_atomic_expression ::= PLUS atomic_expression */
-#line 63 "deckgrammar.y"
+      case 28: /* signed_atomic_expression ::= PLUS atomic_expression */
+#line 59 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 24"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 900 "deckgrammar.c"
+#line 876 "deckgrammar.c"
         break;
-      case 32: /* signed_atomic_expression ::= MINUS atomic_expression */
-#line 64 "deckgrammar.y"
+      case 29: /* signed_atomic_expression ::= MINUS atomic_expression */
+#line 60 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 25"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 905 "deckgrammar.c"
+#line 881 "deckgrammar.c"
         break;
-      case 33: /* signed_atomic_expression ::= atomic_expression */
-#line 65 "deckgrammar.y"
+      case 30: /* signed_atomic_expression ::= atomic_expression */
+#line 61 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 26"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 910 "deckgrammar.c"
+#line 886 "deckgrammar.c"
         break;
-      case 34: /* atomic_expression ::= LBRACKET expression RBRACKET */
-#line 67 "deckgrammar.y"
+      case 31: /* atomic_expression ::= LBRACKET expression RBRACKET */
+#line 63 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 27"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[-1].minor.yy0); }
-#line 915 "deckgrammar.c"
+#line 891 "deckgrammar.c"
         break;
-      case 35: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
-#line 68 "deckgrammar.y"
+      case 32: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
+#line 64 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28"<< toString(yymsp[-3].minor.yy0.getType()) << " " << yymsp[-3].minor.yy0.getString()<< " "<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-3].minor.yy0,yymsp[-1].minor.yy0); }
-#line 920 "deckgrammar.c"
+#line 896 "deckgrammar.c"
         break;
-      case 36: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
-#line 69 "deckgrammar.y"
+      case 33: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
+#line 65 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28b"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-2].minor.yy0); }
-#line 925 "deckgrammar.c"
+#line 901 "deckgrammar.c"
         break;
-      case 37: /* atomic_expression ::= value */
-#line 71 "deckgrammar.y"
+      case 34: /* atomic_expression ::= value */
+#line 67 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 29"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[0].minor.yy0); }
-#line 930 "deckgrammar.c"
+#line 906 "deckgrammar.c"
         break;
-      case 38: /* expressionlist ::= expressionlist COMMA expression */
-#line 73 "deckgrammar.y"
+      case 35: /* expressionlist ::= expressionlist COMMA expression */
+#line 69 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 30"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0=yymsp[0].minor.yy0; }
-#line 935 "deckgrammar.c"
+#line 911 "deckgrammar.c"
         break;
-      case 39: /* expressionlist ::= expression */
-#line 74 "deckgrammar.y"
+      case 36: /* expressionlist ::= expression */
+#line 70 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 31"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; yygotominor.yy0.makeExpressionList(); }
-#line 940 "deckgrammar.c"
+#line 916 "deckgrammar.c"
         break;
-      case 40: /* value ::= PATHIDENTIFIER */
-#line 76 "deckgrammar.y"
+      case 37: /* value ::= PATHIDENTIFIER */
+#line 72 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 32"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 945 "deckgrammar.c"
+#line 921 "deckgrammar.c"
         break;
-      case 41: /* value ::= IDENTIFIER */
-#line 77 "deckgrammar.y"
+      case 38: /* value ::= IDENTIFIER */
+#line 73 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 33"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 950 "deckgrammar.c"
+#line 926 "deckgrammar.c"
         break;
-      case 42: /* value ::= INTEGER */
-#line 78 "deckgrammar.y"
+      case 39: /* value ::= INTEGER */
+#line 74 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 34"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignInteger(yymsp[0].minor.yy0); }
-#line 955 "deckgrammar.c"
+#line 931 "deckgrammar.c"
         break;
-      case 43: /* value ::= FLOAT */
-#line 79 "deckgrammar.y"
+      case 40: /* value ::= FLOAT */
+#line 75 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 35"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignFloat(yymsp[0].minor.yy0); }
-#line 960 "deckgrammar.c"
+#line 936 "deckgrammar.c"
         break;
-      case 44: /* value ::= STRING */
-#line 80 "deckgrammar.y"
+      case 41: /* value ::= STRING */
+#line 76 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 36"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignString(yymsp[0].minor.yy0); }
-#line 965 "deckgrammar.c"
+#line 941 "deckgrammar.c"
         break;
-      case 45: /* typedecl ::= INT_DECL */
-#line 82 "deckgrammar.y"
+      case 42: /* typedecl ::= INT_DECL */
+#line 78 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 37"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 970 "deckgrammar.c"
+#line 946 "deckgrammar.c"
         break;
-      case 46: /* typedecl ::= FLOAT_DECL */
-#line 83 "deckgrammar.y"
+      case 43: /* typedecl ::= FLOAT_DECL */
+#line 79 "deckgrammar.y"
 {  SCHNEK_TRACE_LOG(5,"Parser: Rule 38"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 975 "deckgrammar.c"
+#line 951 "deckgrammar.c"
         break;
-      case 47: /* typedecl ::= STRING_DECL */
-#line 84 "deckgrammar.y"
+      case 44: /* typedecl ::= STRING_DECL */
+#line 80 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 39 "<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 980 "deckgrammar.c"
+#line 956 "deckgrammar.c"
         break;
       default:
       /* (0) deck ::= statementlist */ yytestcase(yyruleno==0);
@@ -1048,7 +1024,7 @@ static void yy_syntax_error(
 #line 17 "deckgrammar.y"
 
   throw ParserInternalError();
-#line 1052 "deckgrammar.c"
+#line 1028 "deckgrammar.c"
   ParseARG_STORE; /* Suppress warning about unused %extra_argument variable */
 }
 
-- 
2.43.0


From ecccd9b1774545e2a79b9e66b58993ce21443485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:39 +0000
Subject: [PATCH 14/40] fix: report expressions that are nested too deeply
 instead of crashing

---
 parser/deckgrammar.y       |   4 +
 src/parser/deckgrammar.inc | 158 +++++++++++++++++++------------------
 2 files changed, 85 insertions(+), 77 deletions(-)

diff --git a/parser/deckgrammar.y b/parser/deckgrammar.y
index 078dbcb..6d62605 100644
--- a/parser/deckgrammar.y
+++ b/parser/deckgrammar.y
@@ -18,6 +18,10 @@
   throw ParserInternalError();
 }
 
+%stack_overflow {
+  throw ParserInternalError();
+}
+
 deck ::= statementlist. // --done--
 
 statementlist ::= statementlist statement. // --done--
diff --git a/src/parser/deckgrammar.inc b/src/parser/deckgrammar.inc
index 42d2212..0485fd8 100644
--- a/src/parser/deckgrammar.inc
+++ b/src/parser/deckgrammar.inc
@@ -609,6 +609,10 @@ static void yyStackOverflow(yyParser *yypParser, YYMINORTYPE *yypMinor){
    while( yypParser->yyidx>=0 ) yy_pop_parser_stack(yypParser);
    /* Here code is inserted which will execute if the parser
    ** stack every overflows */
+#line 21 "deckgrammar.y"
+
+  throw ParserInternalError();
+#line 616 "deckgrammar.c"
    ParseARG_STORE; /* Suppress warning about unused %extra_argument var */
 }
 
@@ -765,194 +769,194 @@ static void yy_reduce(
   **     break;
   */
       case 3: /* statement ::= typedecl decllist SEMICOLON */
-#line 26 "deckgrammar.y"
+#line 30 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 1"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yymsp[-1].minor.yy0.storeVariable(yymsp[-2].minor.yy0); }
-#line 771 "deckgrammar.c"
+#line 775 "deckgrammar.c"
         break;
       case 4: /* statement ::= assignment SEMICOLON */
-#line 27 "deckgrammar.y"
+#line 31 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 2"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.updateVariable(); }
-#line 776 "deckgrammar.c"
+#line 780 "deckgrammar.c"
         break;
       case 7: /* statement ::= RBRACE */
-#line 30 "deckgrammar.y"
+#line 34 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 3"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.endBlock(); }
-#line 781 "deckgrammar.c"
+#line 785 "deckgrammar.c"
         break;
       case 9: /* startblock ::= IDENTIFIER IDENTIFIER LBRACE */
-#line 33 "deckgrammar.y"
+#line 37 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 4"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-2].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 786 "deckgrammar.c"
+#line 790 "deckgrammar.c"
         break;
       case 10: /* startblock ::= IDENTIFIER LBRACE */
-#line 34 "deckgrammar.y"
+#line 38 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 5"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yymsp[-1].minor.yy0.createBlock(yymsp[-1].minor.yy0); }
-#line 791 "deckgrammar.c"
+#line 795 "deckgrammar.c"
         break;
       case 11: /* decllist ::= decllist COMMA declaration */
-#line 36 "deckgrammar.y"
+#line 40 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 6"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 796 "deckgrammar.c"
+#line 800 "deckgrammar.c"
         break;
       case 12: /* decllist ::= declaration */
-#line 37 "deckgrammar.y"
+#line 41 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 7"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 801 "deckgrammar.c"
+#line 805 "deckgrammar.c"
         break;
       case 13: /* declaration ::= IDENTIFIER */
-#line 39 "deckgrammar.y"
+#line 43 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 8"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 806 "deckgrammar.c"
+#line 810 "deckgrammar.c"
         break;
       case 14: /* declaration ::= assignment */
-#line 40 "deckgrammar.y"
+#line 44 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 9"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 811 "deckgrammar.c"
+#line 815 "deckgrammar.c"
         break;
       case 16: /* assignment ::= IDENTIFIER EQUAL expression */
-#line 43 "deckgrammar.y"
+#line 47 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 10"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.evaluateExpression(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 816 "deckgrammar.c"
+#line 820 "deckgrammar.c"
         break;
       case 17: /* expression ::= expression PLUS term_expression */
-#line 45 "deckgrammar.y"
+#line 49 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 11"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorAdd>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 821 "deckgrammar.c"
+#line 825 "deckgrammar.c"
         break;
       case 18: /* expression ::= expression MINUS term_expression */
-#line 46 "deckgrammar.y"
+#line 50 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 12"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorSubtract>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 826 "deckgrammar.c"
+#line 830 "deckgrammar.c"
         break;
       case 19: /* expression ::= signed_term_expression */
-#line 47 "deckgrammar.y"
+#line 51 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 13"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 831 "deckgrammar.c"
+#line 835 "deckgrammar.c"
         break;
       case 20: /* signed_term_expression ::= PLUS term_expression */
-#line 49 "deckgrammar.y"
+#line 53 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 17"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 836 "deckgrammar.c"
+#line 840 "deckgrammar.c"
         break;
       case 21: /* signed_term_expression ::= MINUS term_expression */
-#line 50 "deckgrammar.y"
+#line 54 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 18"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 841 "deckgrammar.c"
+#line 845 "deckgrammar.c"
         break;
       case 22: /* signed_term_expression ::= term_expression */
-#line 51 "deckgrammar.y"
+#line 55 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 19"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 846 "deckgrammar.c"
+#line 850 "deckgrammar.c"
         break;
       case 23: /* term_expression ::= term_expression TIMES exp_expression */
-#line 53 "deckgrammar.y"
+#line 57 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 20"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorMultiply>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 851 "deckgrammar.c"
+#line 855 "deckgrammar.c"
         break;
       case 24: /* term_expression ::= term_expression DIVIDE exp_expression */
-#line 54 "deckgrammar.y"
+#line 58 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 21"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorDivide>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 856 "deckgrammar.c"
+#line 860 "deckgrammar.c"
         break;
       case 25: /* term_expression ::= exp_expression */
-#line 55 "deckgrammar.y"
+#line 59 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 22"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 861 "deckgrammar.c"
+#line 865 "deckgrammar.c"
         break;
       case 26: /* exp_expression ::= atomic_expression EXPONENT signed_atomic_expression */
-#line 56 "deckgrammar.y"
+#line 60 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignBinaryOperator<expression::OperatorExponent>(yymsp[-2].minor.yy0,yymsp[0].minor.yy0); }
-#line 866 "deckgrammar.c"
+#line 870 "deckgrammar.c"
         break;
       case 27: /* exp_expression ::= atomic_expression */
-#line 57 "deckgrammar.y"
+#line 61 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 23b"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 871 "deckgrammar.c"
+#line 875 "deckgrammar.c"
         break;
       case 28: /* signed_atomic_expression ::= PLUS atomic_expression */
-#line 59 "deckgrammar.y"
+#line 63 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 24"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 876 "deckgrammar.c"
+#line 880 "deckgrammar.c"
         break;
       case 29: /* signed_atomic_expression ::= MINUS atomic_expression */
-#line 60 "deckgrammar.y"
+#line 64 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 25"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorNeg>(yymsp[0].minor.yy0); }
-#line 881 "deckgrammar.c"
+#line 885 "deckgrammar.c"
         break;
       case 30: /* signed_atomic_expression ::= atomic_expression */
-#line 61 "deckgrammar.y"
+#line 65 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 26"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 886 "deckgrammar.c"
+#line 890 "deckgrammar.c"
         break;
       case 31: /* atomic_expression ::= LBRACKET expression RBRACKET */
-#line 63 "deckgrammar.y"
+#line 67 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 27"<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[-1].minor.yy0); }
-#line 891 "deckgrammar.c"
+#line 895 "deckgrammar.c"
         break;
       case 32: /* atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET */
-#line 64 "deckgrammar.y"
+#line 68 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28"<< toString(yymsp[-3].minor.yy0.getType()) << " " << yymsp[-3].minor.yy0.getString()<< " "<< toString(yymsp[-1].minor.yy0.getType()) << " " << yymsp[-1].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-3].minor.yy0,yymsp[-1].minor.yy0); }
-#line 896 "deckgrammar.c"
+#line 900 "deckgrammar.c"
         break;
       case 33: /* atomic_expression ::= IDENTIFIER LBRACKET RBRACKET */
-#line 65 "deckgrammar.y"
+#line 69 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 28b"<< toString(yymsp[-2].minor.yy0.getType()) << " " << yymsp[-2].minor.yy0.getString()); yygotominor.yy0.assignFunction(yymsp[-2].minor.yy0); }
-#line 901 "deckgrammar.c"
+#line 905 "deckgrammar.c"
         break;
       case 34: /* atomic_expression ::= value */
-#line 67 "deckgrammar.y"
+#line 71 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 29"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignUnaryOperator<expression::OperatorId>(yymsp[0].minor.yy0); }
-#line 906 "deckgrammar.c"
+#line 910 "deckgrammar.c"
         break;
       case 35: /* expressionlist ::= expressionlist COMMA expression */
-#line 69 "deckgrammar.y"
+#line 73 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 30"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yymsp[0].minor.yy0.append(yymsp[-2].minor.yy0); yygotominor.yy0=yymsp[0].minor.yy0; }
-#line 911 "deckgrammar.c"
+#line 915 "deckgrammar.c"
         break;
       case 36: /* expressionlist ::= expression */
-#line 70 "deckgrammar.y"
+#line 74 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 31"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; yygotominor.yy0.makeExpressionList(); }
-#line 916 "deckgrammar.c"
+#line 920 "deckgrammar.c"
         break;
       case 37: /* value ::= PATHIDENTIFIER */
-#line 72 "deckgrammar.y"
+#line 76 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 32"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 921 "deckgrammar.c"
+#line 925 "deckgrammar.c"
         break;
       case 38: /* value ::= IDENTIFIER */
-#line 73 "deckgrammar.y"
+#line 77 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 33"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignIdentifier(yymsp[0].minor.yy0); }
-#line 926 "deckgrammar.c"
+#line 930 "deckgrammar.c"
         break;
       case 39: /* value ::= INTEGER */
-#line 74 "deckgrammar.y"
+#line 78 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 34"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignInteger(yymsp[0].minor.yy0); }
-#line 931 "deckgrammar.c"
+#line 935 "deckgrammar.c"
         break;
       case 40: /* value ::= FLOAT */
-#line 75 "deckgrammar.y"
+#line 79 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 35"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignFloat(yymsp[0].minor.yy0); }
-#line 936 "deckgrammar.c"
+#line 940 "deckgrammar.c"
         break;
       case 41: /* value ::= STRING */
-#line 76 "deckgrammar.y"
+#line 80 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 36"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0.assignString(yymsp[0].minor.yy0); }
-#line 941 "deckgrammar.c"
+#line 945 "deckgrammar.c"
         break;
       case 42: /* typedecl ::= INT_DECL */
-#line 78 "deckgrammar.y"
+#line 82 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 37"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 946 "deckgrammar.c"
+#line 950 "deckgrammar.c"
         break;
       case 43: /* typedecl ::= FLOAT_DECL */
-#line 79 "deckgrammar.y"
+#line 83 "deckgrammar.y"
 {  SCHNEK_TRACE_LOG(5,"Parser: Rule 38"<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 951 "deckgrammar.c"
+#line 955 "deckgrammar.c"
         break;
       case 44: /* typedecl ::= STRING_DECL */
-#line 80 "deckgrammar.y"
+#line 84 "deckgrammar.y"
 { SCHNEK_TRACE_LOG(5,"Parser: Rule 39 "<< toString(yymsp[0].minor.yy0.getType()) << " " << yymsp[0].minor.yy0.getString()); yygotominor.yy0 = yymsp[0].minor.yy0; }
-#line 956 "deckgrammar.c"
+#line 960 "deckgrammar.c"
         break;
       default:
       /* (0) deck ::= statementlist */ yytestcase(yyruleno==0);
@@ -1024,7 +1028,7 @@ static void yy_syntax_error(
 #line 17 "deckgrammar.y"
 
   throw ParserInternalError();
-#line 1028 "deckgrammar.c"
+#line 1032 "deckgrammar.c"
   ParseARG_STORE; /* Suppress warning about unused %extra_argument variable */
 }
 
-- 
2.43.0


From 9741b82fbfdcce73c46891141e74e83df3b0dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 15/40] fix: report incomplete decks and out of range literals
 as parser errors

These escaped as a private exception type or as boost::bad_lexical_cast.
---
 src/parser/parser.cpp      |  9 ++++++++-
 src/parser/parsertoken.cpp | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index e2fc8df..1130de0 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -80,8 +80,10 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     context.blockTree->moveDown();
   }
 
+  Token lastToken(filename, 1, 0);
   for(Token tok: tokens)
   {
+    lastToken = tok;
     try{
       Parse(pParser, tok.getToken(), ParserToken(tok, context));
     }
@@ -90,7 +92,12 @@ pBlock Parser::parse(std::istream &input, std::string filename)
     }
   }
 
-  Parse(pParser, 0, ParserToken());
+  try{
+    Parse(pParser, 0, ParserToken());
+  }
+  catch (ParserInternalError & e) {
+    throw ParserError("Unexpected end of file", lastToken);
+  }
 
   ParseFree(pParser);
 
diff --git a/src/parser/parsertoken.cpp b/src/parser/parsertoken.cpp
index 14db956..dd18379 100644
--- a/src/parser/parsertoken.cpp
+++ b/src/parser/parsertoken.cpp
@@ -96,8 +96,15 @@ void ParserToken::assignInteger(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != INTEGER) throw ParserError("Can't convert non-integer atom to integer", atomTok);
 
-  pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
-  data = pI;
+  try
+  {
+    pIntExpression pI(new Value<int>(boost::lexical_cast<int>(atomTok.getString())));
+    data = pI;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Integer literal '"+atomTok.getString()+"' is out of range", atomTok);
+  }
   type = int_type;
   // std::cerr << "Read Integer " << atomTok.getString() << "\n";
 }
@@ -110,8 +117,15 @@ void ParserToken::assignFloat(ParserToken &parTok)
   if (parTok.getType() != atom) throw ParserError("Can't convert non-atom token to integer", atomTok);
   if (atomTok.getToken() != FLOAT) throw ParserError("Can't convert non-float atom to float", atomTok);
 
-  pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
-  data = pF;
+  try
+  {
+    pFloatExpression pF(new Value<double>(boost::lexical_cast<double>(atomTok.getString())));
+    data = pF;
+  }
+  catch (boost::bad_lexical_cast&)
+  {
+    throw ParserError("Float literal '"+atomTok.getString()+"' is out of range", atomTok);
+  }
   type = float_type;
   // std::cerr << "Read Float " << atomTok.getString() << "\n";
 }
-- 
2.43.0


From 24a96ed3711c64bf89dc01bf58381f765fcd7316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 16/40] fix: report an integer division by zero in a deck
 instead of crashing

---
 src/variables/operators.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/variables/operators.hpp b/src/variables/operators.hpp
index 0557af6..158da17 100644
--- a/src/variables/operators.hpp
+++ b/src/variables/operators.hpp
@@ -226,6 +226,14 @@ namespace expression {
   template<>
   inline std::string OperatorDivide<std::string>::eval(std::string, std::string) { return ""; }
 
+  template<>
+  inline int OperatorDivide<int>::eval(int val1, int val2)
+  {
+      SCHNEK_TRACE_LOG(5, "OperatorDivide<int>::eval(" << val1 << ", " << val2 << ")")
+      if (val2 == 0) throw EvaluationException("Integer division by zero");
+      return val1 / val2;
+  }
+
   template<>
   inline std::string OperatorExponent<std::string>::eval(std::string, std::string) { return ""; }
 
-- 
2.43.0


From 0974addf6501d1a3aa608e12db121d4670c9a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 17/40] fix: BlockVariables::exists follows the same paths as
 getVariable

It dereferenced a null parent for unknown names, never searched the parent
blocks and split paths at a different separator.
---
 src/variables/variables.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variables/variables.cpp b/src/variables/variables.cpp
index ef872e9..52dedab 100644
--- a/src/variables/variables.cpp
+++ b/src/variables/variables.cpp
@@ -146,7 +146,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
   {
     if (vars.count(name)>0) return true;
   }
-  if (upward && (parent.get()==0)) return parent->exists(path, true);
+  if (upward && parent) return parent->exists(path, true);
 
   return false;
 }
@@ -154,7 +154,7 @@ bool BlockVariables::exists(std::list<std::string> path, bool upward)
 bool BlockVariables::exists(std::string name)
 {
   std::list<std::string> path;
-  boost::split(path, name, boost::is_any_of("."));
+  boost::split(path, name, boost::is_any_of(":"));
   return exists(path, true);
 }
 
-- 
2.43.0


From 838f790d078003042ec7a2252fbfa69f9e12e3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 18/40] fix: initAll called on a nested block finds the root of
 the hierarchy

---
 src/variables/block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/block.cpp b/src/variables/block.cpp
index dab2ed1..ba4a913 100644
--- a/src/variables/block.cpp
+++ b/src/variables/block.cpp
@@ -137,7 +137,7 @@ void Block::postInitHierarchy()
 void Block::initAll()
 {
   Block *b = this;
-  while (b->parent) b = &(*parent);
+  while (b->parent) b = &(*(b->parent));
 
   b->evaluateParameters();
   b->registerHierarchy();
-- 
2.43.0


From 7b6725f934edbb28bb3be2bad07eeff136758274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 19/40] fix: ParametersGroup::hasElements removes the elements
 of the group

---
 src/variables/blockparameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/blockparameters.cpp b/src/variables/blockparameters.cpp
index 8f58e99..3d8aaa9 100644
--- a/src/variables/blockparameters.cpp
+++ b/src/variables/blockparameters.cpp
@@ -51,7 +51,7 @@ bool ParametersGroup::isElement(pVariable v)
 
 bool ParametersGroup::hasElements(std::set<long> &ids)
 {
-  ids.erase(parameters.begin(), parameters.end());
+  for(long id: parameters) ids.erase(id);
   return ids.empty();
 }
 
-- 
2.43.0


From 7200c5cea915e765fcb2c3c86e2fc61c4d5e3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 20/40] fix: report circular dependencies between variables
 instead of crashing

---
 src/variables/dependencies.cpp | 683 +++++++++++++++++----------------
 1 file changed, 342 insertions(+), 341 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index e6db25e..30086c1 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,341 +1,342 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    assert(nextEval != 0);
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    if (nextEval == 0)
+      throw EvaluationException("Circular dependency between variables");
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0


From 9aa6271ec0a9c1b9d290aa75b389529d1450ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:00 +0000
Subject: [PATCH 21/40] fix: a name e or E followed by a sign is not the start
 of a number

---
 parser/deckscanner.rl               | 2 +-
 src/parser/internal/deckscanner.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/deckscanner.rl b/parser/deckscanner.rl
index b21f1f8..69efd48 100644
--- a/parser/deckscanner.rl
+++ b/parser/deckscanner.rl
@@ -93,7 +93,7 @@ using namespace schnek;
 	# Match a floating point number.
 	float_exp = [eE] [+\-]? digit+;
 	float_dec = '.' digit* float_exp?;
-	digit* (float_dec | float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
+	(digit* float_dec | digit+ float_exp) { tlist.insert(cur_line, FLOAT,ts,te-ts); };
 
 	*|;
 }%%
diff --git a/src/parser/internal/deckscanner.cpp b/src/parser/internal/deckscanner.cpp
index 2942b61..c388d53 100644
--- a/src/parser/internal/deckscanner.cpp
+++ b/src/parser/internal/deckscanner.cpp
@@ -126,7 +126,7 @@ static const char _deck_indicies[] = {
 	32, 20, 18, 43, 43, 27, 42, 10, 
 	42, 45, 12, 44, 27, 43, 43, 29, 
 	46, 47, 32, 32, 32, 32, 8, 47, 
-	47, 47, 47, 48, 9, 9, 47, 32, 
+	47, 47, 47, 48, 49, 49, 47, 32, 
 	50, 32, 32, 49, 47, 32, 50, 32, 
 	32, 49, 47, 32, 51, 32, 32, 32, 
 	49, 47, 32, 52, 32, 32, 32, 49, 
-- 
2.43.0


From ab0f5d51c20f62f7ae75e832bb9c8e9ea7a16bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:44 +0000
Subject: [PATCH 22/40] fix: Field::getInnerRange compiles and returns the
 inner range

---
 src/grid/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/field.hpp b/src/grid/field.hpp
index 58de237..2bffa31 100644
--- a/src/grid/field.hpp
+++ b/src/grid/field.hpp
@@ -104,7 +104,7 @@ class Field : public Grid<T, rank, CheckingPolicy, StoragePolicy>
     IndexType getInnerHi() { return this->getHi() - ghostCells; }
 
     /** Get the range the inner grid range */
-    RangeType getInnerRange() { return RangeType{this->getLo() + ghostCells, this->getHi() - ghostCells}; }
+    RangeType getInnerRange() { return RangeType{getInnerLo(), getInnerHi()}; }
 
     /** Calculates index and offset from a position on the field
      *
-- 
2.43.0


From fb268ec30a752f4d97dcc1a61ddb7ea37ffad25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:06 +0000
Subject: [PATCH 23/40] fix: FieldFiller::set binds the given coordinates,
 updater and filler every time

---
 src/tools/fieldtools.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools/fieldtools.hpp b/src/tools/fieldtools.hpp
index f5f429a..42687b2 100644
--- a/src/tools/fieldtools.hpp
+++ b/src/tools/fieldtools.hpp
@@ -142,10 +142,9 @@ class FieldFiller
       size_t rank,
       template<size_t> class ArrayCheckingPolicy
     >
-    fieldAdder<rank,ArrayCheckingPolicy> &set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
+    fieldAdder<rank,ArrayCheckingPolicy> set(Array<double, rank, ArrayCheckingPolicy> &coords, DependencyUpdater &updater)
     {
-        static fieldAdder<rank,ArrayCheckingPolicy> adder(coords, updater, implementations);
-        return adder;
+        return fieldAdder<rank,ArrayCheckingPolicy>(coords, updater, implementations);
     }
 
     void clear() { implementations.clear(); }
-- 
2.43.0


From 8ba2fb05ccf155b347792387d9c42140a759ccba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:21 +0000
Subject: [PATCH 24/40] fix: an appending diagnostic opens its file once, when
 it is first executed

---
 src/diagnostic/diagnostic.cpp | 13 ++++++++++---
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 106c62c..338eb67 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -34,7 +34,7 @@
 using namespace schnek;
 
 DiagnosticInterface::DiagnosticInterface() :
-  fname(""), append(false)
+  fname(""), append(false), appendOpen(false)
 {
 }
 
@@ -51,6 +51,13 @@ bool DiagnosticInterface::appending()
   return bool(append);
 }
 
+void DiagnosticInterface::openAppending()
+{
+  if (!appending() || appendOpen) return;
+  open(fname);
+  appendOpen = true;
+}
+
 std::string DiagnosticInterface::parsedFileName(int rank, int timeCounter)
 {
 
@@ -104,7 +111,7 @@ void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0 == timeCounter) && appending()) open(fname);
+  openAppending();
   if ((timeCounter < 0) || ((timeCounter % interval) == 0))
   {
     if (!appending()) open(parsedFileName(rank, timeCounter));
@@ -133,7 +140,7 @@ void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
   if (singleOut() && !master) return;
 
-  if ((0.0 == physicalTime) && appending()) open(fname);
+  openAppending();
 
   if (physicalTime >= nextOutput)
   {
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index c5f7457..e6fa809 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -51,6 +51,8 @@ class DiagnosticInterface : public Block
     std::string fname;
     /// Append data at every write to the same file?
     int append;
+    /// Has the file been opened for appending?
+    bool appendOpen;
   public:
     /// Default constructor
     DiagnosticInterface();
@@ -68,6 +70,8 @@ class DiagnosticInterface : public Block
     void initParameters(BlockParameters&);
 
     bool appending();
+    /// When appending, open the output file the first time the diagnostic is executed
+    void openAppending();
     std::string parsedFileName(int rank, int timeCounter);
     std::string parsedFileName(int rank, double physicalTime);
 };
-- 
2.43.0


From e44db06298079e82efc89848f07be02608c507ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:21 +0000
Subject: [PATCH 25/40] fix: destroyed diagnostics are removed from the
 DiagnosticManager

---
 src/diagnostic/diagnostic.cpp | 20 ++++++++++++++++++++
 src/diagnostic/diagnostic.hpp |  4 ++++
 2 files changed, 24 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 338eb67..821c723 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -106,6 +106,11 @@ IntervalDiagnostic::IntervalDiagnostic() : interval(100)
   DiagnosticManager::instance().addIntervalDiagnostic(this);
 }
 
+IntervalDiagnostic::~IntervalDiagnostic()
+{
+  DiagnosticManager::instance().removeIntervalDiagnostic(this);
+}
+
 void IntervalDiagnostic::execute(bool master, int rank, int timeCounter)
 {
   SCHNEK_TRACE_LOG(2, "IntervalDiagnostic::execute" << fname << " " << rank)
@@ -135,6 +140,11 @@ DeltaTimeDiagnostic::DeltaTimeDiagnostic() : deltaTime(1.0), nextOutput(0.0), co
   DiagnosticManager::instance().addDeltaTimeDiagnostic(this);
 }
 
+DeltaTimeDiagnostic::~DeltaTimeDiagnostic()
+{
+  DiagnosticManager::instance().removeDeltaTimeDiagnostic(this);
+}
+
 void DeltaTimeDiagnostic::execute(bool master, int rank, double physicalTime)
 {
   SCHNEK_TRACE_LOG(2, "DeltaTimeDiagnostic::execute" << fname << " " << rank)
@@ -206,6 +216,16 @@ void DiagnosticManager::addDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
   deltaTimeDiags.push_back(diag);
 }
 
+void DiagnosticManager::removeIntervalDiagnostic(IntervalDiagnostic *diag)
+{
+  intervalDiags.remove(diag);
+}
+
+void DiagnosticManager::removeDeltaTimeDiagnostic(DeltaTimeDiagnostic *diag)
+{
+  deltaTimeDiags.remove(diag);
+}
+
 void DiagnosticManager::execute()
 {
 
diff --git a/src/diagnostic/diagnostic.hpp b/src/diagnostic/diagnostic.hpp
index e6fa809..de374a6 100644
--- a/src/diagnostic/diagnostic.hpp
+++ b/src/diagnostic/diagnostic.hpp
@@ -83,6 +83,7 @@ class IntervalDiagnostic : public DiagnosticInterface
     int interval;
   public:
     IntervalDiagnostic();
+    ~IntervalDiagnostic();
     void execute(bool master, int rank, int timeCounter);
     int getInterval();
   protected:
@@ -98,6 +99,7 @@ class DeltaTimeDiagnostic : public DiagnosticInterface
     int count;
   public:
     DeltaTimeDiagnostic();
+    ~DeltaTimeDiagnostic();
     void execute(bool master, int rank, double physicalTime);
     double getNextOutput();
     double getDeltaTime();
@@ -126,6 +128,8 @@ class DiagnosticManager : public Singleton<DiagnosticManager>
   public:
     void addIntervalDiagnostic(IntervalDiagnostic*);
     void addDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
+    void removeIntervalDiagnostic(IntervalDiagnostic*);
+    void removeDeltaTimeDiagnostic(DeltaTimeDiagnostic*);
     void execute();
 
     void setTimeCounter(int *timecounter);
-- 
2.43.0


From 757682f9ba5d508ddfcab49f6f9660541246f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:21 +0000
Subject: [PATCH 26/40] fix: the DiagnosticManager reports a missing time
 counter or physical time instead of dereferencing a null pointer

---
 src/diagnostic/diagnostic.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diagnostic/diagnostic.cpp b/src/diagnostic/diagnostic.cpp
index 821c723..f00c3f8 100644
--- a/src/diagnostic/diagnostic.cpp
+++ b/src/diagnostic/diagnostic.cpp
@@ -235,6 +235,9 @@ void DiagnosticManager::execute()
   if ((!usePhysicalTime && !timecounter) || (usePhysicalTime && !physicalTime))
     throw schnek::VariableNotInitialisedException("In DiagnosticManager: A time counter or physical time must be specified!");
 
+  if ((!timecounter && !intervalDiags.empty()) || (!physicalTime && !deltaTimeDiags.empty()))
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: Interval diagnostics need a time counter and delta time diagnostics a physical time!");
+
   for(IntervalDiagnostic *diag: intervalDiags)
   {
     diag->execute(master, rank, *timecounter);
@@ -251,6 +254,8 @@ double DiagnosticManager::adjustDeltaT(double deltaT)
 {
   double adjustedDt = deltaT;
 
+  if (!physicalTime && !deltaTimeDiags.empty())
+    throw schnek::VariableNotInitialisedException("In DiagnosticManager: A physical time must be specified!");
 
   for(DeltaTimeDiagnostic *diag: deltaTimeDiags)
   {
-- 
2.43.0


From d773d48fe1ddf13a7ee74611af85518ea11b1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 27/40] fix: an attribute set from a value keeps the value, not
 its address

---
 src/diagnostic/hdfdiagnostic.hpp | 2 ++
 src/diagnostic/hdfdiagnostic.t   | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 47a4420..206a572 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -84,6 +84,8 @@ struct HdfAttributes {
       hid_t type;
       hsize_t dims;
       const void *buffer;
+      /// Holds a copy of the value when it has been passed by reference
+      std::shared_ptr<void> storage;
     };
     typedef std::shared_ptr<Info> pInfo;
 
diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index cc6051a..a224d63 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -45,7 +45,10 @@ template<typename T>
 void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
   pInfo info(new Info);
   info->type = H5DataType<T>::type;
-  info->buffer = &value;
+  std::shared_ptr<T> copy(new T[dims], std::default_delete<T[]>());
+  std::copy(&value, &value + dims, copy.get());
+  info->storage = copy;
+  info->buffer = copy.get();
   info->dims = dims;
   this->attributes[name] = info;
 }
-- 
2.43.0


From 47bb92642acb0a70f44456bbd0009db67c9df1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 28/40] fix: HdfOStream::open closes the file that is still
 open

---
 src/diagnostic/hdfdiagnostic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 5107595..86179f2 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -268,6 +268,7 @@ HdfOStream::HdfOStream(const char* fname)
 }
 
 int HdfOStream::open(const char* fname) {
+  close();
   sets_count = 0;
 
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-- 
2.43.0


From 4a33135d65266c769bf5d2293fb7aa610ef25eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 29/40] fix: an inactive HdfIStream does not read

---
 src/diagnostic/hdfdiagnostic.t | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index a224d63..5cabec7 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -56,6 +56,10 @@ void HdfAttributes::set(std::string name, const T &value, hsize_t dims) {
 template<typename FieldType>
 void HdfIStream::readGrid(GridContainer<FieldType> &g)
 {
+  if (!active) {
+    return;
+  }
+
   std::string dset_name = getNextBlockName();
 
   typedef typename FieldType::IndexType IndexType;
-- 
2.43.0


From 75f1675ef678abf63845d3a2ed1300787ffb3188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:30 +0000
Subject: [PATCH 30/40] fix: define the constructor of HDFGridReader

---
 src/diagnostic/hdfdiagnostic.t | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index 5cabec7..ec0d080 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -430,6 +430,9 @@ void HDFGridDiagnostic<Type, DiagnosticType>::init()
 // HDFGridReader
 //------------------------------------------------------------------------------
 
+template<typename Type>
+HDFGridReader<Type>::HDFGridReader() {}
+
 template<typename Type>
 void HDFGridReader<Type>::init()
 {
-- 
2.43.0


From 4b19ec1ad4bda973a7fc01930f24ece92f9c23b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:51 +0000
Subject: [PATCH 31/40] fix: copies of a HDF stream share the open file, the
 property lists and the active flag

---
 src/diagnostic/hdfdiagnostic.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 86179f2..1f3fa1e 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -59,16 +59,27 @@ HdfStream::HdfStream(const HdfStream& hdf)
     blockname(hdf.blockname),
     attributes(hdf.attributes),
     sets_count(hdf.sets_count),
-    active(true),
-    activeModified(false)
+    active(hdf.active),
+    activeModified(hdf.activeModified)
 #if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    , commSet(false)
+    , mpiComm(hdf.mpiComm),
+    commSet(hdf.commSet)
 #endif
-{}
+{
+  // both streams close the file
+  if (file_id >= 0) {
+    H5Iinc_ref(file_id);
+  }
+}
 
 HdfStream &HdfStream::operator=(const HdfStream& hdf)
 {
-  file_id = hdf.file_id;
+  if (hdf.file_id >= 0) {
+    H5Iinc_ref(hdf.file_id);
+  }
+  const hid_t new_file_id = hdf.file_id;
+  close();
+  file_id = new_file_id;
   status = hdf.status;
   sets_count = hdf.sets_count;
   blockname = hdf.blockname;
@@ -258,7 +269,13 @@ HdfOStream::HdfOStream()
 {}
 
 HdfOStream::HdfOStream(const HdfOStream& hdf)
-  : HdfStream(hdf), initialised(hdf.initialised)
+  : HdfStream(hdf),
+    dxpl_id(hdf.dxpl_id),
+#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
+    mpi_info(hdf.mpi_info),
+#endif
+    plist_id(hdf.plist_id),
+    initialised(hdf.initialised)
 {}
 
 HdfOStream::HdfOStream(const char* fname)
-- 
2.43.0


From e624ceb6b3d378864597e370ea998a0ef8526ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:54 +0000
Subject: [PATCH 32/40] fix: HDF files are opened over the communicator of the
 processes that are active now, and it is released again

---
 src/diagnostic/hdfdiagnostic.cpp | 53 ++++++++++++++++----------------
 src/diagnostic/hdfdiagnostic.hpp |  4 ---
 2 files changed, 26 insertions(+), 31 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.cpp b/src/diagnostic/hdfdiagnostic.cpp
index 1f3fa1e..254fd83 100644
--- a/src/diagnostic/hdfdiagnostic.cpp
+++ b/src/diagnostic/hdfdiagnostic.cpp
@@ -177,6 +177,7 @@ void HdfStream::makeMPIGroup()
 
   MPI_Group_incl(worldGroup, count, inputArr, &activeGroup);
   MPI_Comm_create(MPI_COMM_WORLD, activeGroup, &mpiComm);
+  commSet = true;
 
   delete[] activeArr;
   delete[] inputArr;
@@ -271,10 +272,6 @@ HdfOStream::HdfOStream()
 HdfOStream::HdfOStream(const HdfOStream& hdf)
   : HdfStream(hdf),
     dxpl_id(hdf.dxpl_id),
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    mpi_info(hdf.mpi_info),
-#endif
-    plist_id(hdf.plist_id),
     initialised(hdf.initialised)
 {}
 
@@ -300,39 +297,41 @@ int HdfOStream::open(const char* fname) {
     int rank;
     MPI_Comm_rank(MPI_COMM_WORLD, &rank);
 
-    if (!initialised) {
-      /* setup file access template */
-
-      plist_id = H5Pcreate(H5P_FILE_ACCESS);
+    /* setup file access template */
+    MPI_Info mpi_info;
+    hid_t plist_id = H5Pcreate(H5P_FILE_ACCESS);
 
-      H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
-      H5Pset_alignment(plist_id, align_threshold, alignment);
+    H5Pset_sieve_buf_size(plist_id, sieve_buf_size);
+    H5Pset_alignment(plist_id, align_threshold, alignment);
 
-      MPI_Info_create(&mpi_info);
+    MPI_Info_create(&mpi_info);
 
-      // MPI
-      const char access_style[]         = "access_style";
-      const char write_once[]           = "write_once";
-      const char collective_buffering[] = "collective_buffering";
-      const char strue[]                = "true";
-      const char cb_block_size[]        = "cb_block_size";
-      const char n1048576[]             = "1048576";
-      const char cb_buffer_size[]       = "cb_buffer_size";
-      const char n4194304[]             = "4194304";
+    // MPI
+    const char access_style[]         = "access_style";
+    const char write_once[]           = "write_once";
+    const char collective_buffering[] = "collective_buffering";
+    const char strue[]                = "true";
+    const char cb_block_size[]        = "cb_block_size";
+    const char n1048576[]             = "1048576";
+    const char cb_buffer_size[]       = "cb_buffer_size";
+    const char n4194304[]             = "4194304";
 
-      MPI_Info_set(mpi_info, access_style, write_once);
-      MPI_Info_set(mpi_info, collective_buffering, strue);
-      MPI_Info_set(mpi_info, cb_block_size, n1048576);
-      MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
+    MPI_Info_set(mpi_info, access_style, write_once);
+    MPI_Info_set(mpi_info, collective_buffering, strue);
+    MPI_Info_set(mpi_info, cb_block_size, n1048576);
+    MPI_Info_set(mpi_info, cb_buffer_size, n4194304);
 
-      /* set Parallel access with communicator */
-      H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
-    }
+    /* set Parallel access with communicator */
+    H5Pset_fapl_mpio(plist_id, mpiComm, mpi_info);
 
     /* open the file collectively */
     //H5Pset_fapl_mpiposix(plist_id, mpiComm, 0);
     file_id = H5Fcreate (fname, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id);
 
+    /* Release file-access template */
+    MPI_Info_free(&mpi_info);
+    H5Pclose(plist_id);
+
     if (!initialised) {
       dxpl_id = H5Pcreate(H5P_DATASET_XFER);
       SCHNEK_TRACE_LOG(3,"Data Transfer Property List Id (0) " << dxpl_id)
diff --git a/src/diagnostic/hdfdiagnostic.hpp b/src/diagnostic/hdfdiagnostic.hpp
index 206a572..0105fe5 100644
--- a/src/diagnostic/hdfdiagnostic.hpp
+++ b/src/diagnostic/hdfdiagnostic.hpp
@@ -207,10 +207,6 @@ class HdfIStream : public HdfStream {
 class HdfOStream : public HdfStream {
   private:
     hid_t dxpl_id;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-    MPI_Info mpi_info;
-#endif
-    hid_t plist_id;
     bool initialised;
   public:
     /// constructor
-- 
2.43.0


From 44409e2293a0d5ac9777c4d5b6946089c6e43c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:07 +0000
Subject: [PATCH 33/40] fix: HDF attributes are written by all active
 processes, as HDF5 requires

---
 src/diagnostic/hdfdiagnostic.t | 39 ++++++++++++++--------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/src/diagnostic/hdfdiagnostic.t b/src/diagnostic/hdfdiagnostic.t
index ec0d080..488da2e 100644
--- a/src/diagnostic/hdfdiagnostic.t
+++ b/src/diagnostic/hdfdiagnostic.t
@@ -299,34 +299,27 @@ void HdfOStream::writeGrid(GridContainer<FieldType> &g)
   assert(ret != -1);
 #endif
 
-  /* now write the attributes */
+  /* now write the attributes; all active processes take part */
 
-  int mpi_rank = 0;
-#if defined (H5_HAVE_PARALLEL) && defined (SCHNEK_USE_HDF_PARALLEL)
-  MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
-#endif
+  /* Create the data space for the attribute. */
+  typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
+  for(attPair p: attributes->attributes) {
+    HdfAttributes::Info &info = *(p.second);
 
-  if (mpi_rank==0) {
-    /* Create the data space for the attribute. */
-    typedef std::pair<std::string, HdfAttributes::pInfo> attPair;
-    for(attPair p: attributes->attributes) {
-      HdfAttributes::Info &info = *(p.second);
+    const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
+    /* Create a dataset attribute. */
+    const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
+                                           H5P_DEFAULT, H5P_DEFAULT);
 
-      const hid_t dataspace_id = H5Screate_simple(1, &info.dims, NULL);
-      /* Create a dataset attribute. */
-      const hid_t attribute_id = H5Acreate2 (dataset, p.first.c_str(), info.type, dataspace_id,
-                                             H5P_DEFAULT, H5P_DEFAULT);
+    /* Write the attribute data. */
+    ret = H5Awrite(attribute_id, info.type, info.buffer);
+    assert(ret != -1);
 
-      /* Write the attribute data. */
-      ret = H5Awrite(attribute_id, info.type, info.buffer);
-      assert(ret != -1);
+    /* Close the attribute. */
+    H5Aclose(attribute_id);
 
-      /* Close the attribute. */
-      H5Aclose(attribute_id);
-
-      /* Close the dataspace. */
-      H5Sclose(dataspace_id);
-    }
+    /* Close the dataspace. */
+    H5Sclose(dataspace_id);
   }
 
   /* close dataset collectively */
-- 
2.43.0


From de9603d503a64233b1e24775caa5e80fb908f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:31 +0000
Subject: [PATCH 34/40] fix: store school and organization of literature
 references in their own fields

---
 src/tools/literature.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index 4e363ca..f5c5920 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -597,7 +597,7 @@ class LiteratureInProceedings : public LiteratureReference
       setPages(pages);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
@@ -617,7 +617,7 @@ class LiteratureManual : public LiteratureReference
 
       setTitle(title);
       setAuthor(author);
-      setEdition(organization);
+      setOrganization(organization);
       setAddress(address);
       setEdition(edition);
       setYear(year);
@@ -639,7 +639,7 @@ class LiteratureMastersThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -683,7 +683,7 @@ class LiteraturePhdThesis : public LiteratureReference
 
       setAuthor(author);
       setTitle(title);
-      setEdition(school);
+      setSchool(school);
       setYear(year);
       setType(type);
       setAddress(address);
@@ -713,7 +713,7 @@ class LiteratureProceedings : public LiteratureReference
       setSeries(series);
       setAddress(address);
       setMonth(month);
-      setEdition(organization);
+      setOrganization(organization);
       setPublisher(publisher);
       setNote(note);
       setKey(key);
-- 
2.43.0


From 4b659d0b9c61290ef76d780a9edad7422cad40f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:31 +0000
Subject: [PATCH 35/40] fix: initialise the publication type of literature
 references

---
 src/tools/literature.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/literature.hpp b/src/tools/literature.hpp
index f5c5920..033714e 100644
--- a/src/tools/literature.hpp
+++ b/src/tools/literature.hpp
@@ -78,8 +78,8 @@ private:
     std::string bibKey;
     PublicationType publType;
   public:
-    LiteratureReference() {}
-    LiteratureReference(std::string bibKey_) : bibKey(bibKey_) {}
+    LiteratureReference() : publType(misc) {}
+    LiteratureReference(std::string bibKey_) : bibKey(bibKey_), publType(misc) {}
 
     LiteratureReference(const LiteratureReference &ref) :
       address(ref.address),
-- 
2.43.0


From c0e20c4509750908eb66a573c45f441f31cf22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 36/40] fix: keep drand() and irand() within their ranges

---
 src/functions.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 692ab2c..3d39ae5 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -30,14 +30,17 @@
 #include <cstdlib>
 
 
-static const double RAND_MAX2 = double(RAND_MAX)*double(RAND_MAX);
+static const double RAND_RANGE = double(RAND_MAX) + 1.0;
+static const double RAND_RANGE2 = RAND_RANGE*RAND_RANGE;
 
 double schnek::drand()
 {
-  return (double(rand()) +  double(RAND_MAX)*double(rand()))/RAND_MAX2;
+  return (double(rand()) + RAND_RANGE*double(rand()))/RAND_RANGE2;
 }
 
 int schnek::irand(int range)
 {
-  return int(drand()*range);
+  // rounding can make drand() return exactly 1
+  int result = int(drand()*range);
+  return result < range ? result : range - 1;
 }
-- 
2.43.0


From e2abf4fbc4b5fdc72de95b7d03215d264500b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:09 +0000
Subject: [PATCH 37/40] fix: KokkosGridStorage::getSize() did not compile

---
 src/grid/gridstorage/kokkos-storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 0a1b22a..de6fd37 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -153,7 +153,7 @@ namespace schnek {
         SCHNEK_INLINE int getDims(int k) const { return this->dims[k]; }
 
         /// Get the length of the allocated array
-        SCHNEK_INLINE int getSize() const { return this->size; }
+        SCHNEK_INLINE int getSize() const { return static_cast<int>(this->view.size()); }
 
         /**
          * @brief resizes to grid with lower indices low[0],...,low[rank-1]
-- 
2.43.0


From 2d21af04fc203f35cd21d6c763c411e9d28f4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:48 +0000
Subject: [PATCH 38/40] fix: resizing a grid in Kokkos memory resizes the grids
 that share its data

---
 src/grid/gridstorage/kokkos-storage.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index de6fd37..2507053 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -75,7 +75,8 @@ namespace schnek {
         /// The grid range type
         typedef Range<int, rank> RangeType;
     private:
-        typedef std::function<void(const RangeType&)> UpdaterType;
+        typedef Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> ViewType;
+        typedef std::function<void(const RangeType&, const ViewType&)> UpdaterType;
         typedef std::map<void *, UpdaterType> UpdaterMapType;
 
         /// The lowest and highest coordinates in the grid (inclusive)
@@ -84,7 +85,7 @@ namespace schnek {
         /// The dimensions of the grid `dims = high - low + 1`
         IndexType dims;
 
-        Kokkos::View<typename internal::KokkosViewType<T, rank>::type, ViewProperties...> view;
+        ViewType view;
 
         /// A map of updaters that are called when the grid is resized
         std::shared_ptr<UpdaterMapType> updaters;
@@ -201,14 +202,15 @@ namespace schnek {
             return getFromViewImpl(pos, std::make_index_sequence<rank>{});
         }
 
-        void update(const RangeType& range) {
+        void update(const RangeType& range, const ViewType& view) {
             for (auto& updater: *updaters) {
-                updater.second(range);
+                updater.second(range, view);
             }
         }
 
-        void updateSizeInfo(const RangeType &range) {
+        void updateSizeInfo(const RangeType &range, const ViewType& view) {
             this->range = range;
+            this->view = view;
             for (size_t i = 0; i < rank; ++i)
             {
                 dims[i] = range.getHi(i) - range.getLo(i) + 1;
@@ -229,7 +231,7 @@ namespace schnek {
           dims{0},
           updaters{new UpdaterMapType}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -238,7 +240,7 @@ namespace schnek {
           dims{other.dims}, view{other.view},
           updaters{other.updaters}
     {
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -248,7 +250,7 @@ namespace schnek {
     {
         dims = hi - lo + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -258,7 +260,7 @@ namespace schnek {
     {
         dims = range.getHi() - range.getLo() + 1;
         view = createKokkosView(dims);
-        (*updaters)[this] = [this](const RangeType& range) { this->updateSizeInfo(range); };
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
@@ -293,8 +295,7 @@ namespace schnek {
     void KokkosGridStorage<T, rank, ViewProperties...>::resize(const IndexType &lo, const IndexType &hi)
     {
         IndexType dims = hi - lo + 1;
-        this->view = createKokkosView(dims);
-        update(RangeType{lo, hi});
+        update(RangeType{lo, hi}, createKokkosView(dims));
     }
 
     template <typename T, size_t rank, class ...ViewProperties>
-- 
2.43.0


From 8b5d5d550ee2913913f2a4580f8e312bb66f67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:25 +0000
Subject: [PATCH 39/40] fix: assigning grids in Kokkos memory keeps track of
 the grids sharing the data

---
 src/grid/gridstorage/kokkos-storage.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/grid/gridstorage/kokkos-storage.hpp b/src/grid/gridstorage/kokkos-storage.hpp
index 2507053..b9e63fe 100644
--- a/src/grid/gridstorage/kokkos-storage.hpp
+++ b/src/grid/gridstorage/kokkos-storage.hpp
@@ -98,6 +98,11 @@ namespace schnek {
          */
         KokkosGridStorage(const KokkosGridStorage &);
 
+        /**
+         * @brief Assignment operator
+         */
+        KokkosGridStorage &operator=(const KokkosGridStorage &);
+
         /**
          * @brief Construct with a given size
          * 
@@ -243,6 +248,20 @@ namespace schnek {
         (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
     }
 
+    template <typename T, size_t rank, class ...ViewProperties>
+    KokkosGridStorage<T, rank, ViewProperties...> &
+    KokkosGridStorage<T, rank, ViewProperties...>::operator=(const KokkosGridStorage &other)
+    {
+        if (this == &other) return *this;
+        range = other.range;
+        dims = other.dims;
+        view = other.view;
+        updaters->erase(this);
+        updaters = other.updaters;
+        (*updaters)[this] = [this](const RangeType& range, const ViewType& view) { this->updateSizeInfo(range, view); };
+        return *this;
+    }
+
     template <typename T, size_t rank, class ...ViewProperties>
     KokkosGridStorage<T, rank, ViewProperties...>::KokkosGridStorage(const IndexType &lo, const IndexType &hi) 
         : range{lo, hi},
-- 
2.43.0


From 03f965beaabf9be5c6f04c1b5c27fc34bdff9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:48 +0000
Subject: [PATCH 40/40] fix: restore the CRLF line endings of dependencies.cpp

An earlier fix (circular dependencies are reported) converted the whole file
to LF; its net change against the original is now the two lines it needs.
---
 src/variables/dependencies.cpp | 684 ++++++++++++++++-----------------
 1 file changed, 342 insertions(+), 342 deletions(-)

diff --git a/src/variables/dependencies.cpp b/src/variables/dependencies.cpp
index 30086c1..723e405 100644
--- a/src/variables/dependencies.cpp
+++ b/src/variables/dependencies.cpp
@@ -1,342 +1,342 @@
-/*
- * dependencies.cpp
- *
- * Created on: 10 Jul 2012
- * Author: Holger Schmitz
- * Email: holger@notjustphysics.com
- *
- * Copyright 2012 Holger Schmitz
- *
- * This file is part of Schnek.
- *
- * Schnek is free software: you can redistribute it and/or modify
- * it under the terms of the GNU General Public License as published by
- * the Free Software Foundation, either version 3 of the License, or
- * (at your option) any later version.
- *
- * Schnek is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU General Public License for more details.
- *
- * You should have received a copy of the GNU General Public License
- * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
- *
- */
-
-#include "dependencies.hpp"
-#include "expression.hpp"
-#include "../exception.hpp"
-#include "../util/logger.hpp"
-
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
-
-#include <boost/variant/apply_visitor.hpp>
-
-#pragma GCC diagnostic pop
-
-#include <cassert>
-
-#undef LOGLEVEL
-#define LOGLEVEL 0
-
-using namespace schnek;
-
-DependencyMap::DependencyMap(const pBlockVariables vars)
-{
-
-  static int dummyInt = 0;
-  typedef std::shared_ptr<Expression<int> > ParExpression;
-  ParExpression pexp(new ExternalValue<int>(&dummyInt));
-  pVariable tmp(new Variable(pexp, true, true));
-  dummyVar = tmp;
-
-  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
-  //dependencies[-1] = dummyInfo;
-  dependencies[dummyVar->getId()] = dummyInfo;
-//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
-
-  blockVars = vars;
-  constructMap(vars);
-}
-
-void DependencyMap::constructMapRecursive(const pBlockVariables vars)
-{
-  for(VariableMap::value_type it: vars->getVariables())
-  {
-    pVariable v=it.second;
-    if (!v->isConstant())
-    {
-      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
-      DependenciesGetter depGet;
-      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
-      if (dep.count(-1)>0)
-      {
-        dep.erase(-1);
-        dep.insert(dummyVar->getId());
-      }
-
-      long id = v->getId();
-      if (dependencies.count(id)>0) throw SchnekException();
-      dependencies[id] = VarInfo(v, dep, DependencySet());
-    }
-  }
-
-  for(pBlockVariables ch: vars->getChildren())
-  {
-    constructMapRecursive(ch);
-  }
-}
-void DependencyMap::constructMap(const pBlockVariables vars)
-{
-  SCHNEK_TRACE_ENTER_FUNCTION(3);
-
-
-  constructMapRecursive(vars);
-
-  for(DepMap::value_type entry: dependencies)
-  {
-    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
-    for(long id: entry.second.dependsOn)
-    {
-      if (dependencies.count(id)>0) {
-        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
-        dependencies[id].modifies.insert(entry.first);
-      }
-    }
-  }
-
-  SCHNEK_TRACE_EXIT_FUNCTION(3);
-}
-
-void DependencyMap::resetCounters()
-{
-  for(DepMap::value_type entry: dependencies)
-  {
-    entry.second.counter = entry.second.dependsOn.size();
-  }
-}
-
-void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
-{
-  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
-  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
-  makeUpdateOrder(deps, updateList);
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
-                                                                const VariableSet &dependentVars)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap predecessors_p(new RefDepMap());
-  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
-
-  // first initialise the working set and also add the variables to the predecessors
-  for(pVariable v: dependentVars)
-  {
-    long id=v->getId();
-    VarInfo *vi = &(dependencies[id]);
-    workingSet.push_back(vi);
-    predecessors[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->dependsOn)
-    {
-      // check if we already considered this variable
-      if (predecessors.count(id) > 0) continue;
-
-      // A negative id signals that the expression should be re-evaluated for every change.
-      // To do this we add all independent variables to the predecessors list.
-      if (id<0)
-      {
-        for(pVariable indVar: independentVars)
-        {
-          long indId = indVar->getId();
-          if (predecessors.count(indId) == 0)
-          {
-            // if not, put predecessors in the working set and in the map
-            VarInfo *pred = &(dependencies[indId]);
-            workingSet.push_back(pred);
-            predecessors[indId] = pred;
-          }
-        }
-      }
-      else
-      {
-        // if not, put predecessors in the working set and in the map
-        VarInfo *pred = &(dependencies[id]);
-        workingSet.push_back(pred);
-        predecessors[id] = pred;
-      }
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return predecessors_p;
-
-}
-
-DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
-{
-  std::list<VarInfo*> workingSet;
-  pRefDepMap followers_p(new RefDepMap());
-  RefDepMap &followers = *followers_p;
-  RefDepMap &predecessors = *predecessors_p;
-
-  // first initialise the working set and also add the variables to the followers
-  for(pVariable v: independentVars)
-  {
-    long id=v->getId();
-    // the variable is not needed if it is not in the predecessors
-    if (predecessors.count(id) == 0) continue;
-    VarInfo *vi = predecessors[id];
-    workingSet.push_back(vi);
-    followers[id] = vi;
-  }
-
-  // take elements out of the working set and analyse their predecessors
-  while (!workingSet.empty())
-  {
-    VarInfo *vi = workingSet.front();
-    workingSet.pop_front();
-
-    for(long id: vi->modifies)
-    {
-      // check if we already considered this variable or if we need it at all
-      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
-
-      // if not, put predecessors in the working set and in the map
-      VarInfo *foll = predecessors[id];
-      workingSet.push_back(foll);
-      followers[id] = foll;
-    }
-  }
-
-  // The map now contains all the predecessors of the dependent variables but note
-  // that the VarInfo::modifies sets are not restricted to this map.
-  return followers_p;
-
-}
-
-void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
-{
-  typedef std::list<VarInfo*>::iterator WorkIter;
-
-  std::list<VarInfo*> workingSet;
-  RefDepMap &deps = *deps_p;
-
-  updateList.clear();
-
-  // first initialise the counters
-  for(RefDepMap::value_type entry: deps)
-  {
-
-    int count = 0;
-    VarInfo *vi = entry.second;
-    workingSet.push_back(vi);
-    for(long id: vi->dependsOn)
-    {
-      if (deps.count(id) > 0) ++count;
-    }
-    entry.second->counter = count;
-  }
-
-  while (!workingSet.empty())
-  {
-    VarInfo *nextEval = 0;
-    WorkIter it = workingSet.begin();
-    while ((nextEval==0) && (it!=workingSet.end()))
-    {
-      if ((*it)->counter==0) nextEval=*it;
-      else ++it;
-    }
-
-    if (nextEval == 0)
-      throw EvaluationException("Circular dependency between variables");
-
-    workingSet.erase(it);
-    updateList.push_back(nextEval->v);
-
-    for(long id: nextEval->modifies)
-    {
-      if (deps.count(id) == 0) continue;
-      VarInfo *vi = deps[id];
-      --(vi->counter);
-      assert(vi->counter >= 0);
-    }
-  }
-}
-
-pBlockVariables DependencyMap::getBlockVariables()
-{
-  return blockVars;
-}
-
-void DependencyMap::updateAll()
-{
-  pRefDepMap deps(new RefDepMap());
-  for(DepMap::value_type &entry: dependencies)
-  {
-    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
-  }
-
-  VariableList updateList;
-
-  makeUpdateOrder(deps, updateList);
-
-  for(pVariable v: updateList) {
-    try
-    {
-      v->evaluateExpression();
-    }
-    catch(...)
-    {
-      // no-op, bulkhead
-    }
-  }
-}
-
-
-DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
-  : dependencies(dependencies_), isValid(true)
-{
-  assert(dependencies->dummyVar->isReadOnly());
-  independentVars.insert(dependencies->dummyVar);
-}
-
-
-void DependencyUpdater::addIndependent(pParameter p)
-{
-  assert(p->getVariable()->isReadOnly());
-  independentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::addDependent(pParameter p)
-{
-  assert(!!p);
-  // only non-constant variables have to be updated using the DependencyUpdater
-  if (p->getVariable()->isConstant())
-  {
-    p->update();
-    return;
-  }
-  dependentParameters.insert(p);
-  dependentVars.insert(p->getVariable());
-  isValid = false;
-}
-
-void DependencyUpdater::clearDependent()
-{
-  dependentParameters.clear();
-  dependentVars.clear();
-  isValid = false;
-}
+/*
+ * dependencies.cpp
+ *
+ * Created on: 10 Jul 2012
+ * Author: Holger Schmitz
+ * Email: holger@notjustphysics.com
+ *
+ * Copyright 2012 Holger Schmitz
+ *
+ * This file is part of Schnek.
+ *
+ * Schnek is free software: you can redistribute it and/or modify
+ * it under the terms of the GNU General Public License as published by
+ * the Free Software Foundation, either version 3 of the License, or
+ * (at your option) any later version.
+ *
+ * Schnek is distributed in the hope that it will be useful,
+ * but WITHOUT ANY WARRANTY; without even the implied warranty of
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+ * GNU General Public License for more details.
+ *
+ * You should have received a copy of the GNU General Public License
+ * along with Schnek.  If not, see <http://www.gnu.org/licenses/>.
+ *
+ */
+
+#include "dependencies.hpp"
+#include "expression.hpp"
+#include "../exception.hpp"
+#include "../util/logger.hpp"
+
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+
+#include <boost/variant/apply_visitor.hpp>
+
+#pragma GCC diagnostic pop
+
+#include <cassert>
+
+#undef LOGLEVEL
+#define LOGLEVEL 0
+
+using namespace schnek;
+
+DependencyMap::DependencyMap(const pBlockVariables vars)
+{
+
+  static int dummyInt = 0;
+  typedef std::shared_ptr<Expression<int> > ParExpression;
+  ParExpression pexp(new ExternalValue<int>(&dummyInt));
+  pVariable tmp(new Variable(pexp, true, true));
+  dummyVar = tmp;
+
+  VarInfo dummyInfo(dummyVar, DependencySet(), DependencySet());
+  //dependencies[-1] = dummyInfo;
+  dependencies[dummyVar->getId()] = dummyInfo;
+//  std::cerr << "DUMMY Id = " << dummyVar->getId() << std::endl;
+
+  blockVars = vars;
+  constructMap(vars);
+}
+
+void DependencyMap::constructMapRecursive(const pBlockVariables vars)
+{
+  for(VariableMap::value_type it: vars->getVariables())
+  {
+    pVariable v=it.second;
+    if (!v->isConstant())
+    {
+      SCHNEK_TRACE_LOG(3,"Adding variable " << it.first << " " << v->getId());
+      DependenciesGetter depGet;
+      DependencySet dep = boost::apply_visitor(depGet, v->getExpression());
+      if (dep.count(-1)>0)
+      {
+        dep.erase(-1);
+        dep.insert(dummyVar->getId());
+      }
+
+      long id = v->getId();
+      if (dependencies.count(id)>0) throw SchnekException();
+      dependencies[id] = VarInfo(v, dep, DependencySet());
+    }
+  }
+
+  for(pBlockVariables ch: vars->getChildren())
+  {
+    constructMapRecursive(ch);
+  }
+}
+void DependencyMap::constructMap(const pBlockVariables vars)
+{
+  SCHNEK_TRACE_ENTER_FUNCTION(3);
+
+
+  constructMapRecursive(vars);
+
+  for(DepMap::value_type entry: dependencies)
+  {
+    SCHNEK_TRACE_LOG(3,"Setting Dependency " << entry.first << " " << entry.second.v->getId());
+    for(long id: entry.second.dependsOn)
+    {
+      if (dependencies.count(id)>0) {
+        SCHNEK_TRACE_LOG(3,"Adding to modifies of " << id);
+        dependencies[id].modifies.insert(entry.first);
+      }
+    }
+  }
+
+  SCHNEK_TRACE_EXIT_FUNCTION(3);
+}
+
+void DependencyMap::resetCounters()
+{
+  for(DepMap::value_type entry: dependencies)
+  {
+    entry.second.counter = entry.second.dependsOn.size();
+  }
+}
+
+void DependencyMap::makeUpdateList(const VariableSet &independentVars, const VariableSet &dependentVars, VariableList &updateList)
+{
+  pRefDepMap reverseDeps = makeUpdatePredecessors(independentVars, dependentVars);
+  pRefDepMap deps = makeUpdateFollowers(independentVars, reverseDeps);
+  makeUpdateOrder(deps, updateList);
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdatePredecessors(const VariableSet &independentVars,
+                                                                const VariableSet &dependentVars)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap predecessors_p(new RefDepMap());
+  RefDepMap &predecessors = *predecessors_p; // only used for more readable code
+
+  // first initialise the working set and also add the variables to the predecessors
+  for(pVariable v: dependentVars)
+  {
+    long id=v->getId();
+    VarInfo *vi = &(dependencies[id]);
+    workingSet.push_back(vi);
+    predecessors[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->dependsOn)
+    {
+      // check if we already considered this variable
+      if (predecessors.count(id) > 0) continue;
+
+      // A negative id signals that the expression should be re-evaluated for every change.
+      // To do this we add all independent variables to the predecessors list.
+      if (id<0)
+      {
+        for(pVariable indVar: independentVars)
+        {
+          long indId = indVar->getId();
+          if (predecessors.count(indId) == 0)
+          {
+            // if not, put predecessors in the working set and in the map
+            VarInfo *pred = &(dependencies[indId]);
+            workingSet.push_back(pred);
+            predecessors[indId] = pred;
+          }
+        }
+      }
+      else
+      {
+        // if not, put predecessors in the working set and in the map
+        VarInfo *pred = &(dependencies[id]);
+        workingSet.push_back(pred);
+        predecessors[id] = pred;
+      }
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return predecessors_p;
+
+}
+
+DependencyMap::pRefDepMap DependencyMap::makeUpdateFollowers(const VariableSet &independentVars, pRefDepMap predecessors_p)
+{
+  std::list<VarInfo*> workingSet;
+  pRefDepMap followers_p(new RefDepMap());
+  RefDepMap &followers = *followers_p;
+  RefDepMap &predecessors = *predecessors_p;
+
+  // first initialise the working set and also add the variables to the followers
+  for(pVariable v: independentVars)
+  {
+    long id=v->getId();
+    // the variable is not needed if it is not in the predecessors
+    if (predecessors.count(id) == 0) continue;
+    VarInfo *vi = predecessors[id];
+    workingSet.push_back(vi);
+    followers[id] = vi;
+  }
+
+  // take elements out of the working set and analyse their predecessors
+  while (!workingSet.empty())
+  {
+    VarInfo *vi = workingSet.front();
+    workingSet.pop_front();
+
+    for(long id: vi->modifies)
+    {
+      // check if we already considered this variable or if we need it at all
+      if ((followers.count(id) > 0) || (predecessors.count(id) == 0)) continue;
+
+      // if not, put predecessors in the working set and in the map
+      VarInfo *foll = predecessors[id];
+      workingSet.push_back(foll);
+      followers[id] = foll;
+    }
+  }
+
+  // The map now contains all the predecessors of the dependent variables but note
+  // that the VarInfo::modifies sets are not restricted to this map.
+  return followers_p;
+
+}
+
+void DependencyMap::makeUpdateOrder(pRefDepMap deps_p, VariableList &updateList)
+{
+  typedef std::list<VarInfo*>::iterator WorkIter;
+
+  std::list<VarInfo*> workingSet;
+  RefDepMap &deps = *deps_p;
+
+  updateList.clear();
+
+  // first initialise the counters
+  for(RefDepMap::value_type entry: deps)
+  {
+
+    int count = 0;
+    VarInfo *vi = entry.second;
+    workingSet.push_back(vi);
+    for(long id: vi->dependsOn)
+    {
+      if (deps.count(id) > 0) ++count;
+    }
+    entry.second->counter = count;
+  }
+
+  while (!workingSet.empty())
+  {
+    VarInfo *nextEval = 0;
+    WorkIter it = workingSet.begin();
+    while ((nextEval==0) && (it!=workingSet.end()))
+    {
+      if ((*it)->counter==0) nextEval=*it;
+      else ++it;
+    }
+
+    if (nextEval == 0)
+      throw EvaluationException("Circular dependency between variables");
+
+    workingSet.erase(it);
+    updateList.push_back(nextEval->v);
+
+    for(long id: nextEval->modifies)
+    {
+      if (deps.count(id) == 0) continue;
+      VarInfo *vi = deps[id];
+      --(vi->counter);
+      assert(vi->counter >= 0);
+    }
+  }
+}
+
+pBlockVariables DependencyMap::getBlockVariables()
+{
+  return blockVars;
+}
+
+void DependencyMap::updateAll()
+{
+  pRefDepMap deps(new RefDepMap());
+  for(DepMap::value_type &entry: dependencies)
+  {
+    deps->insert(RefDepMap::value_type(entry.first, &entry.second));
+  }
+
+  VariableList updateList;
+
+  makeUpdateOrder(deps, updateList);
+
+  for(pVariable v: updateList) {
+    try
+    {
+      v->evaluateExpression();
+    }
+    catch(...)
+    {
+      // no-op, bulkhead
+    }
+  }
+}
+
+
+DependencyUpdater::DependencyUpdater(pDependencyMap dependencies_)
+  : dependencies(dependencies_), isValid(true)
+{
+  assert(dependencies->dummyVar->isReadOnly());
+  independentVars.insert(dependencies->dummyVar);
+}
+
+
+void DependencyUpdater::addIndependent(pParameter p)
+{
+  assert(p->getVariable()->isReadOnly());
+  independentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::addDependent(pParameter p)
+{
+  assert(!!p);
+  // only non-constant variables have to be updated using the DependencyUpdater
+  if (p->getVariable()->isConstant())
+  {
+    p->update();
+    return;
+  }
+  dependentParameters.insert(p);
+  dependentVars.insert(p->getVariable());
+  isValid = false;
+}
+
+void DependencyUpdater::clearDependent()
+{
+  dependentParameters.clear();
+  dependentVars.clear();
+  isValid = false;
+}
-- 
2.43.0

