From 156b817ca88d1f2b6ff6043799b979452bc22b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 01/63] fix: integerConversion silently wraps a negative value
 of a smaller signed type to a larger unsigned type

---
 src/limits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limits.hpp b/src/limits.hpp
index 9a55104..b0ff438 100644
--- a/src/limits.hpp
+++ b/src/limits.hpp
@@ -120,7 +120,8 @@ constexpr bool sameSignedness = ( std::is_signed< T >::value && std::is_signed<
  * @brief True iff @tparam OUTPUT can hold every possible value of @tparam INPUT.
  */
 template< typename INPUT, typename OUTPUT >
-constexpr bool canEasilyConvert = sizeof( INPUT ) < sizeof( OUTPUT ) ||
+constexpr bool canEasilyConvert = ( sizeof( INPUT ) < sizeof( OUTPUT ) &&
+                                    ( std::is_unsigned< INPUT >::value || sameSignedness< INPUT, OUTPUT > ) ) ||
                                   ( sizeof( INPUT ) == sizeof( OUTPUT ) && sameSignedness< INPUT, OUTPUT > );
 
 } // namespace internal
-- 
2.43.0


From 3f24d3641b9187e9cfc75ddc862ce429c70fc7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 02/63] fix: LVARRAY_ERROR_IF_LE and LVARRAY_THROW_IF_LE test
 for greater or equal

---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From 98b78e548ec366286ebbc62861f3f84dad0e5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 03/63] fix: math::getFirst and math::getSecond do not compile
 for single valued types

---
 src/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.hpp b/src/math.hpp
index f832e0f..b197055 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -77,7 +77,7 @@ struct SingleType
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getFirst( T const x )
+typename SingleType< T >::type getFirst( T const x )
 { return x; }
 
 /**
@@ -87,7 +87,7 @@ SingleType< T > getFirst( T const x )
  */
 template< typename T >
 LVARRAY_HOST_DEVICE inline constexpr
-SingleType< T > getSecond( T const x )
+typename SingleType< T >::type getSecond( T const x )
 { return x; }
 
 /**
-- 
2.43.0


From d5c730346df386bfd605bd56a664d5a667f262da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 04/63] fix: calculateSize truncates the result for sizes of
 10000 GB and more

---
 src/system.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 019fe66..596c499 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -425,8 +425,9 @@ std::string calculateSize( size_t const bytes )
 
   double const units = double( bytes ) / ( 1 << shift );
 
-  char result[10];
-  std::snprintf( result, 10, "%.1f %s", units, suffix );
+  // Large enough for the maximum size_t, which is 17179869184.0 GB.
+  char result[32];
+  std::snprintf( result, sizeof( result ), "%.1f %s", units, suffix );
   return result;
 }
 
-- 
2.43.0


From a616a047f706e7dbe59d4ddf3488cd0edc6bf1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 05/63] fix: resetSignalHandling doesn't restore the original
 handlers when they were set more than once

---
 src/system.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index 596c499..cd48b24 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -491,6 +491,9 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
+  // If the handlers haven't been reset since they were last set then the ones replaced below aren't the initial ones.
+  std::map< int, handle_type > const previousInitialHandler = initialHandler;
+
   initialHandler[SIGHUP] = signal( SIGHUP, handler );
   initialHandler[SIGINT] = signal( SIGINT, handler );
   initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
@@ -511,6 +514,11 @@ void setSignalHandling( void (* handler)( int ) )
   initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
   initialHandler[SIGTERM] = signal( SIGTERM, handler );
 
+  for( auto const & a : previousInitialHandler )
+  {
+    initialHandler[ a.first ] = a.second;
+  }
+
   return;
 }
 
@@ -521,6 +529,8 @@ void resetSignalHandling()
   {
     signal( a.first, a.second );
   }
+
+  initialHandler.clear();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 302bb927434ea58ce31a6a00c468270dea44479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 06/63] fix: stackTraceHandler loses its output when it aborts
 with standard out redirected

---
 src/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system.cpp b/src/system.cpp
index cd48b24..3762563 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -477,7 +477,7 @@ void stackTraceHandler( int const sig, bool const exit )
   }
 
   oss << stackTrace( true ) << std::endl;
-  std::cout << oss.str();
+  std::cout << oss.str() << std::flush;
 
   if( exit )
   {
-- 
2.43.0


From a82969460a1cb5fb3e52eb42888d71e488069680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 07/63] fix: arrayManipulation::resize moves from its arguments
 when initializing the first new value

---
 src/arrayManipulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 9cf25ee..5b5efa0 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -301,9 +301,10 @@ void resize( T * const LVARRAY_RESTRICT ptr,
   }
   else
   {
+    // The arguments are not forwarded, they initialize more than one value.
     for( std::ptrdiff_t i = size; i < newSize; ++i )
     {
-      new ( ptr + i ) T( std::forward< ARGS >( args )... );
+      new ( ptr + i ) T( args ... );
     }
   }
 }
-- 
2.43.0


From 736b36c60c11a2fef3fb174d3788df0f8798fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 08/63] fix: arrayManipulation::shiftUp constructs over values
 that it never destroys

---
 src/arrayManipulation.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 5b5efa0..6fbe0b0 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -339,11 +339,10 @@ void shiftUp( T * const LVARRAY_RESTRICT ptr,
   {
     std::ptrdiff_t const curIndex = i - 1;
     new ( ptr + curIndex + n ) T( std::move( ptr[ curIndex ] ) );
-  }
 
-  // Delete the values moved out of.
-  std::ptrdiff_t const bounds = (index + n < size) ? index + n : size;
-  destroy( ptr + index, bounds - index );
+    // Destroy the value moved out of, a later iteration might construct a new one in its place.
+    ptr[ curIndex ].~T();
+  }
 }
 
 /**
-- 
2.43.0


From 76fe876f4d275e7ff93999e5b16925b74eedde61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:27 +0000
Subject: [PATCH 09/63] fix: dualSort overflows its stack of ranges on
 adversarial input

---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..498fbef 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // If there is no room for another range it is left for the insertion sort that follows.
+    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD && nRanges < MAX_RANGES )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0


From c2f07b43acec1668527735797670906c456fb4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:18 +0000
Subject: [PATCH 10/63] fix: ArraySlice::isContiguous is true for empty slices

---
 src/ArraySlice.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b4e2234..b56d968 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -217,6 +217,7 @@ public:
   {
     if( USD < 0 ) return false;
     if( NDIM == 1 && USD == 0 ) return true;
+    if( size() == 0 ) return true;
 
     bool rval = true;
     for( int i = 0; i < NDIM; ++i )
-- 
2.43.0


From dbb9781a95b3d9091da4cb1031647881174e0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 11/63] fix: arrayManipulation::insert accepts an empty range
 for an array without storage

---
 src/arrayManipulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 6fbe0b0..b8a198a 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -505,7 +505,7 @@ void insert( T * const LVARRAY_RESTRICT ptr,
              ITERATOR first,
              std::ptrdiff_t const n )
 {
-  LVARRAY_ASSERT( ptr != nullptr );
+  LVARRAY_ASSERT( ptr != nullptr || (size == 0 && n == 0) );
   LVARRAY_ASSERT( isPositive( size ) );
   ARRAYMANIPULATION_CHECK_INSERT_BOUNDS( index );
 
-- 
2.43.0


From 6075bd3ce64070693bf98184b0437248468de419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 12/63] fix: setValues of a StackArray sets its own values

---
 src/ArrayView.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index cbbf669..2b77420 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -608,6 +608,18 @@ public:
   template< typename POLICY >
   void setValues( T const & value ) const
   {
+    // Copying a view whose buffer does not have shallow copy semantics would copy the values as well.
+    if( !BUFFER_TYPE< T >::hasShallowCopy )
+    {
+      T * const ptr = data();
+      RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
+                              [value, ptr] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
+        {
+          ptr[ i ] = value;
+        } );
+      return;
+    }
+
     auto const view = toView();
     RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
                             [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
@@ -650,6 +662,17 @@ public:
                                "This method only works with Arrays with the same data layout." );
     }
 
+    // Copying a view whose buffer does not have shallow copy semantics would copy the values as well.
+    if( !BUFFER_TYPE< T >::hasShallowCopy )
+    {
+      T * const ptr = data();
+      RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ), [ptr, rhs] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
+        {
+          ptr[ i ] = rhs.data()[ i ];
+        } );
+      return;
+    }
+
     auto const view = toView();
     RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ), [view, rhs] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
       {
-- 
2.43.0


From 03e0e0bec100e5310dc79aeff53cb899d086ad76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 13/63] fix: move assignment of Array and SortedArray leaks the
 values and the buffer of the destination

---
 src/Array.hpp       |  3 +++
 src/SortedArray.hpp | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..65cb655 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -192,6 +192,9 @@ public:
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    if( this == &rhs ) return *this;
+
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..9ae2f31 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -106,12 +106,19 @@ public:
   }
 
   /**
-   * @brief Default move assignment operator, performs a shallow copy.
+   * @brief Move assignment operator, performs a shallow copy.
    * @param src the SortedArray to be moved from.
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    if( this == &src ) return *this;
+
+    bufferManipulation::free( this->m_values, size() );
+    ParentClass::operator=( std::move( src ) );
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From 692f8d29ce2a02c235a79d62ed166eb1a9ce2b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 14/63] fix: self assignment of the sparse containers destroys
 their values

---
 src/ArrayOfArrays.hpp   | 4 ++++
 src/ArrayOfSets.hpp     | 4 ++++
 src/CRSMatrix.hpp       | 4 ++++
 src/SparsityPattern.hpp | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 1ce2231..8e5fdfa 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -168,6 +168,8 @@ public:
   inline
   ArrayOfArrays & operator=( ArrayOfArrays const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
@@ -184,6 +186,8 @@ public:
   inline
   ArrayOfArrays & operator=( ArrayOfArrays && src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::free();
     ParentClass::operator=( std::move( src ) );
     return *this;
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index c8b7519..3d69c05 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -98,6 +98,8 @@ public:
   inline
   ArrayOfSets & operator=( ArrayOfSets const & src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
@@ -114,6 +116,8 @@ public:
   inline
   ArrayOfSets & operator=( ArrayOfSets && src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::free();
     ParentClass::operator=( std::move( src ) );
     return *this;
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ddd786c..873eafb 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -100,6 +100,8 @@ public:
   inline
   CRSMatrix & operator=( CRSMatrix const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
@@ -118,6 +120,8 @@ public:
   inline
   CRSMatrix & operator=( CRSMatrix && src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::free( this->m_entries );
     ParentClass::operator=( std::move( src ) );
     return *this;
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 652d5e5..9095bc1 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -95,6 +95,8 @@ public:
   inline
   SparsityPattern & operator=( SparsityPattern const & src )
   {
+    if( this == &src ) return *this;
+
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
                              src.m_offsets[ src.m_numArrays ],
@@ -112,6 +114,8 @@ public:
   inline
   SparsityPattern & operator=( SparsityPattern && src )
   {
+    if( this == &src ) return *this;
+
     ParentClass::free();
     ParentClass::operator=( std::move( src ) );
     return *this;
-- 
2.43.0


From ab5d2f39b9d1ccf408b57678582e7618c1623e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 15/63] fix: ArrayOfArraysView::setEqualTo moves values that
 have been destroyed, and reads past the end of the offsets

---
 src/ArrayOfArraysView.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7aebc59..95c0eee 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -840,10 +840,10 @@ protected:
     bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [maxOffset, srcMaxOffset]( auto & dstBuffer )
+    // The values have already been destroyed.
+    typeManipulation::forEachArg( [srcMaxOffset]( auto & dstBuffer )
     {
-      bufferManipulation::reserve( dstBuffer, maxOffset, MemorySpace::host, srcMaxOffset );
+      bufferManipulation::reserve( dstBuffer, 0, MemorySpace::host, srcMaxOffset );
     }, m_values, pairs.first ... );
 
     m_numArrays = srcNumArrays;
-- 
2.43.0


From 7c08ae3a6af123d9293da15c1c16e9e0684b62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 16/63] fix: growing the values of an ArrayOfArrays moves and
 destroys values that were never constructed

---
 src/ArrayOfArraysView.hpp | 51 +++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 95c0eee..2f351e7 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -645,10 +645,9 @@ protected:
   template< class ... BUFFERS >
   void reserveValues( INDEX_TYPE const newValueCapacity, BUFFERS & ... buffers )
   {
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [newValueCapacity, maxOffset] ( auto & buffer )
+    typeManipulation::forEachArg( [this, newValueCapacity] ( auto & buffer )
     {
-      bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, newValueCapacity );
+      reserveBuffer( buffer, newValueCapacity, newValueCapacity );
     }, m_values, buffers ... );
   }
 
@@ -784,10 +783,9 @@ protected:
 
         INDEX_TYPE const totalSize = m_offsets[ newSize ];
 
-        INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-        typeManipulation::forEachArg( [totalSize, maxOffset]( auto & buffer )
+        typeManipulation::forEachArg( [this, totalSize]( auto & buffer )
         {
-          bufferManipulation::reserve( buffer, maxOffset, MemorySpace::host, totalSize );
+          reserveBuffer( buffer, totalSize, totalSize );
         }, m_values, buffers ... );
       }
     }
@@ -889,7 +887,7 @@ protected:
         [this, i, maxOffset, capacityIncrease]( auto & buffer )
       {
         // Increase the size of the buffer.
-        bufferManipulation::dynamicReserve( buffer, maxOffset, maxOffset + capacityIncrease );
+        reserveBuffer( buffer, maxOffset + capacityIncrease, 2 * ( maxOffset + capacityIncrease ) );
 
         // Shift up the values.
         for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )
@@ -972,6 +970,45 @@ protected:
 
 private:
 
+  /**
+   * @tparam BUFFER the type of the buffer.
+   * @brief Reserve space in a buffer that holds the values of the arrays.
+   * @param buffer The buffer to reserve space in.
+   * @param minCapacity The minimum capacity, if the buffer already has this capacity nothing happens.
+   * @param newCapacity The capacity to allocate if the buffer needs to grow.
+   * @note The buffer doesn't contain a value in the unused capacity of each array so unless the values can be
+   *   copied bitwise the values are made contiguous for the reallocation and moved back afterwards.
+   */
+  template< typename BUFFER >
+  void reserveBuffer( BUFFER & buffer, INDEX_TYPE const minCapacity, INDEX_TYPE const newCapacity )
+  {
+    if( minCapacity <= buffer.capacity() ) return;
+
+    if( std::is_trivially_copyable< typename BUFFER::value_type >::value )
+    {
+      INDEX_TYPE const maxOffset = ( m_numArrays == 0 ) ? 0 : m_offsets[ m_numArrays ];
+      bufferManipulation::setCapacity( buffer, maxOffset, MemorySpace::host, newCapacity );
+      return;
+    }
+
+    INDEX_TYPE_NC numValues = 0;
+    for( INDEX_TYPE_NC i = 0; i < m_numArrays; ++i )
+    {
+      INDEX_TYPE const arraySize = sizeOfArray( i );
+      arrayManipulation::uninitializedShiftDown( buffer.data() + m_offsets[ i ], arraySize, m_offsets[ i ] - numValues );
+      numValues += arraySize;
+    }
+
+    bufferManipulation::setCapacity( buffer, numValues, MemorySpace::host, newCapacity );
+
+    for( INDEX_TYPE_NC i = m_numArrays; i > 0; --i )
+    {
+      INDEX_TYPE const arraySize = sizeOfArray( i - 1 );
+      numValues -= arraySize;
+      arrayManipulation::uninitializedShiftUp( buffer.data() + numValues, arraySize, m_offsets[ i - 1 ] - numValues );
+    }
+  }
+
   /**
    * @brief Destroy the values in arrays in the range [begin, end).
    * @tparam BUFFERS variadic template where each type is a BUFFER_TYPE.
-- 
2.43.0


From 017d8383af3f9b5ae9f19417e55a69d4089318ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 17/63] fix: ArrayOfArraysView::capacity ignores the capacity
 of the offsets and fails an assertion after appending arrays

---
 src/ArrayOfArraysView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 2f351e7..57f337a 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -369,8 +369,8 @@ public:
   LVARRAY_HOST_DEVICE CONSTEXPR_WITH_NDEBUG inline
   INDEX_TYPE_NC capacity() const
   {
-    LVARRAY_ASSERT( m_sizes.capacity() < m_offsets.capacity());
-    return m_sizes.capacity();
+    // There is one more offset than there are arrays, unless this has been moved from.
+    return m_offsets.capacity() == 0 ? 0 : math::min( m_sizes.capacity(), m_offsets.capacity() - 1 );
   }
 
   /**
-- 
2.43.0


From f764137706479b3dbbedd1638109ca67dac6a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 18/63] fix: reporting an array index that is out of bounds
 reads the size of an array that does not exist

---
 src/ArrayOfArraysView.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 57f337a..9833441 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -43,8 +43,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
                     "Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " m_sizes[ i ]=" << this->m_sizes[ i ] )
 
-- 
2.43.0


From dc02bca211efaa0985dafa3e459057d01cf2071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 19/63] fix: ArrayOfArraysView::appendToArray writes past the
 capacity of the array before checking it

---
 src/ArrayOfArraysView.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 9833441..2254d0d 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -484,10 +484,11 @@ public:
   void appendToArray( INDEX_TYPE const i, ITER const first, ITER const last ) const
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( i );
+    INDEX_TYPE const n = arrayManipulation::iterDistance( first, last );
+    ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
 
     T * const ptr = m_values.data() + m_offsets[ i ];
-    INDEX_TYPE const n = arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
-    ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
+    arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
     m_sizes[ i ] += n;
   }
 
-- 
2.43.0


From 0ff7c299c41197ed4760c598ad0789b24367634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 20/63] fix: modifying a SparsityPattern or a CRSMatrix does
 not check the columns when bounds checking is on

---
 src/CRSMatrix.hpp       | 17 +++++++++++++++--
 src/CRSMatrixView.hpp   | 30 +++++++++++++++++++++++++++---
 src/SparsityPattern.hpp | 17 +++++++++++++++--
 3 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 873eafb..782b4a1 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -380,7 +380,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -397,7 +401,16 @@ public:
                              COL_TYPE const * const cols,
                              T const * const entriesToInsert,
                              INDEX_TYPE const ncols )
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   using ParentClass::removeNonZero;
   using ParentClass::removeNonZeros;
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 703688c..d7c7337 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -276,7 +276,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry ) const
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -294,7 +298,16 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 T const * const LVARRAY_RESTRICT entriesToInsert,
                                 INDEX_TYPE const ncols ) const
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   /**
    * @brief Remove a non-zero entry at the given position.
@@ -304,7 +317,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool removeNonZero( INDEX_TYPE const row, COL_TYPE const col ) const
-  { return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr )); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr ));
+  }
 
   /**
    * @brief Remove non-zero entries from the given row.
@@ -320,6 +337,13 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 INDEX_TYPE const ncols ) const
   {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
     T * const entries = getEntries( row );
     INDEX_TYPE const rowNNZ = numNonZeros( row );
     INDEX_TYPE const nRemoved = ParentClass::removeFromSetImpl( row, cols, cols + ncols, CallBacks( *this, row, nullptr ) );
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 9095bc1..6255475 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -328,7 +328,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
@@ -342,7 +346,16 @@ public:
   template< typename ITER >
   inline
   INDEX_TYPE insertNonZeros( INDEX_TYPE const row, ITER const first, ITER const last )
-  { return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( ITER iter = first; iter != last; ++iter )
+    { SPARSITYPATTERN_COLUMN_CHECK( *iter ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) );
+  }
 
   using ParentClass::removeNonZero;
 
-- 
2.43.0


From 3644de5794b27e3ec1c1fb7433b9f9258f4aac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 21/63] fix: the bounds check of the dimension passed to size
 and stride misses negative dimensions, and is an assertion in ArrayView

---
 src/ArraySlice.hpp | 2 ++
 src/ArrayView.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b56d968..6421feb 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -190,6 +190,7 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
@@ -203,6 +204,7 @@ public:
   INDEX_TYPE stride( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_strides[ dim ];
diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 2b77420..7b9bad6 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -416,8 +416,8 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
-    LVARRAY_ASSERT_GE( dim, 0 );
-    LVARRAY_ASSERT_GT( NDIM, dim );
+    LVARRAY_ERROR_IF_LT( dim, 0 );
+    LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
   }
-- 
2.43.0


From 61b2021d060c0657a1f365d0c5d7d7898d5fee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 22/63] fix: reporting an invalid value in stringToArray throws
 std::out_of_range because tellg of a failed stream is -1

---
 src/input.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/input.hpp b/src/input.hpp
index fde15d5..4ff4651 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -63,8 +63,7 @@ struct StringToArrayHelper
     inputStream >> arrayValue;
 
     LVARRAY_ERROR_IF( inputStream.fail(),
-                      "Invalid value of type " << typeid(T).name() << " in: " <<
-                      ( inputStream.eof()  ?  "" : inputStream.str().substr( inputStream.tellg() ) ) );
+                      "Invalid value of type " << typeid(T).name() << " in: " << inputStream.str() );
   }
 
   /**
-- 
2.43.0


From 5c0dda4a3d7dfbb965f7d00ed1e22765a266f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 23/63] fix: stringToArray writes past its dimension arrays
 when a brace is nested deeper than the array has dimensions

---
 src/input.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 4ff4651..0d33aaa 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -229,6 +229,10 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     if( c=='{' )
     {
       ++dimLevel;
+      LVARRAY_ERROR_IF( dimLevel >= NDIM,
+                        "In parsing the input string, the current dimension of the array has exceeded "
+                        "the number of dimensions of the array ("<<NDIM<<"). The values that have been parsed prior to the error are:\n"<<
+                        valueString.substr( 0, charCount+1 ) );
     }
     else if( c=='}' )
     {
-- 
2.43.0


From e7560d57a82ed64f5da6a3f247656eda70530403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 24/63] fix: stringToArray accepts malformed values when a
 trailing comma makes up for the missing value, as in "{1-2,}"

---
 src/input.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 0d33aaa..7c874de 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -236,6 +236,9 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     }
     else if( c=='}' )
     {
+      LVARRAY_ERROR_IF( lastChar==',',
+                        "character of '}' follows ','. A value or a sub array must follow a comma. Given string is: \n"<<valueString );
+
       // } means that we are closing a dimension. That means we know the size of this dimLevel
       dimSet[dimLevel] = true;
       LVARRAY_ERROR_IF( dims[dimLevel]!=currentDims[dimLevel],
-- 
2.43.0


From 13c33e58b3bd916c12225ae46ca6f298a2346dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 25/63] fix: check the size of the matrix inverted in place

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index f006d86..a16b731 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -628,9 +628,11 @@ struct SquareMatrixOps< 3 >
    * @note @p srcMatrix must contain floating point values.
    */
   template< typename MATRIX >
-  LVARRAY_HOST_DEVICE constexpr inline
+  LVARRAY_HOST_DEVICE CONSTEXPR_WITHOUT_BOUNDS_CHECK inline
   static auto invert( MATRIX && matrix )
   {
+    checkSizes< 3, 3 >( matrix );
+
     using realType = std::remove_reference_t< decltype( matrix[ 0 ][ 0 ] ) >;
 #if 0
     realType temp[ 3 ][ 3 ];
-- 
2.43.0


From 28ad8852404193e0d4df48a79a4dc7c057d18b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 26/63] fix: the eigenvalues of symmetric matrices of denormal
 numbers are NaN

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index a16b731..4766f98 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -49,7 +49,9 @@ static void shiftAndScale( FloatingPoint (& matrix)[ ( M * ( M + 1 ) ) / 2 ],
   maxEntryAfterShift = maxAbsoluteEntry< SYM_SIZE< M > >( matrix );
   if( maxEntryAfterShift > 0 )
   {
-    scale< SYM_SIZE< M > >( matrix, 1 / maxEntryAfterShift );
+    // Divide instead of scaling by the reciprocal, which overflows when the entries are denormal.
+    for( std::ptrdiff_t i = 0; i < SYM_SIZE< M >; ++i )
+    { matrix[ i ] /= maxEntryAfterShift; }
   }
 
   // A second shift is necessary because of floating point round off and because the eigenvalue
-- 
2.43.0


From 72d3270240c5b212924b9edc9d1d01561b3aff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 27/63] fix: the eigenvalues of a symmetric 3x3 matrix with a
 constant diagonal and tiny other entries can be NaN

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index 4766f98..c137995 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -1204,7 +1204,9 @@ private:
 
     FloatingPoint const p = math::sqrt( oneSixthTraceASquared );
 
-    FloatingPoint const det = ( p > 0 ) ? symDeterminant( matrix ) / ( p * p * p ) : 0;
+    // p can be positive and yet so small that p^3 underflows to zero.
+    FloatingPoint const pCubed = p * p * p;
+    FloatingPoint const det = ( pCubed > 0 ) ? symDeterminant( matrix ) / pCubed : 0;
 
     // det should be in [-2, 2] but it may be slightly outside do to floating point error.
     FloatingPoint const halfDetB = det > 2 ? 1 : ( det < -2 ? -1 : det / 2 );
-- 
2.43.0


From b61020f4875f185a0f01eba2dc6aa1c380ac99cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 28/63] fix: equal eigenvalues of symmetric 3x3 matrices can be
 returned in descending order

---
 src/fixedSizeSquareMatrixOpsImpl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fixedSizeSquareMatrixOpsImpl.hpp b/src/fixedSizeSquareMatrixOpsImpl.hpp
index c137995..6eb06e7 100644
--- a/src/fixedSizeSquareMatrixOpsImpl.hpp
+++ b/src/fixedSizeSquareMatrixOpsImpl.hpp
@@ -1220,6 +1220,9 @@ private:
     eigenvalues[ 0 ] = -p * ( cosTheta + squareRootThree * sinTheta ); // == 2 * p * cos( theta + 2pi/3 )
     eigenvalues[ 1 ] = -p * ( cosTheta - squareRootThree * sinTheta ); // == 2 * p * cos( theta +  pi/3 )
     eigenvalues[ 2 ] = 2 * p * cosTheta;
+
+    // The larger two may be out of order due to floating point error when they are numerically the same.
+    eigenvalues[ 1 ] = math::min( eigenvalues[ 1 ], eigenvalues[ 2 ] );
   }
 
   /**
-- 
2.43.0


From c535c32addd7e19e9c8c35acdc54db3be4abb310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 29/63] fix: TV_ttf_add_row reads outside of its table of
 digits for most addresses above 2^32

---
 src/totalview/tv_data_display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 7770087..f659529 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -166,7 +166,7 @@ marshal_unsigned_body ( char * buffer, size_t len, size_t val, int base,
   char * my_buffer  = buffer;
   size_t my_len     = len;
 
-  if( (int)val < base )
+  if( val < (size_t)base )
   {
     r = val;
   }
-- 
2.43.0


From 4fb61709738505cfe4d996116154f7322b8f894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 30/63] fix: TV_ttf_add_row writes past the end of the display
 buffer instead of reporting that it is exhausted

---
 src/totalview/tv_data_display.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index f659529..bcb2129 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -139,9 +139,10 @@ marshal_string ( char * buffer, size_t len, const char * s,
     ret_val++;
     if( len > 1 )
     {
-      *cursor++ = *s++;
+      *cursor++ = *s;
       len--;
     }
+    s++;
   }
   if( len > 0 )
     *cursor = '\0';
@@ -269,8 +270,8 @@ int TV_ttf_add_row( const char * field_name,
     TV_ttf_data_format_control = TV_FORMAT_APPEND_CALL;
   }
 
-  remaining = TV_ttf_data_buffer_ptr +
-              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_format_buffer;
+  remaining = TV_ttf_data_format_buffer +
+              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_buffer_ptr;
 
 /*
    out = snprintf(TV_ttf_data_buffer_ptr,
@@ -280,8 +281,12 @@ int TV_ttf_add_row( const char * field_name,
   out = marshal_row ( TV_ttf_data_buffer_ptr, remaining,
                       field_name, type_name, value, 0, 0 );
 
-  if( out < 1 )
+  if( out < 1 || (size_t)out >= remaining )
+  {
+    /* Remove the part of the row that fit */
+    my_zeroit( TV_ttf_data_buffer_ptr, remaining );
     return TV_ttf_ec_buffer_exhausted;
+  }
 
   TV_ttf_data_buffer_ptr += out;
 
-- 
2.43.0


From 783cf0d8f8555407db0b29c95aa86587161f5a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 31/63] fix: ArrayView does not compile with
 LVARRAY_USE_TOTALVIEW_OUTPUT

---
 src/ArrayView.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 7b9bad6..b77665f 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -726,9 +726,9 @@ public:
       // m_data;"<<std::endl;
       // TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
-      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangle< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
+      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims.data) );
+      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides.data) );
+      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
       TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
     }
     return 0;
-- 
2.43.0


From 86f868aa7341143a3490c60d6eebfebe28cef5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 32/63] fix: nested objects keep stale values when a ChaiBuffer
 is moved to the space it is already in

moveNested moved the inner objects only when the outer allocation changed
spaces, so an inner object that had been moved on its own was not brought
along, and a kernel that captures the outer object as const followed by one in
the same space that modifies it did not touch the inner objects. The inner
objects were also accessed through m_pointer, which may point to the allocation
in another space, instead of through the host allocation.
---
 src/ChaiBuffer.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 7a3bfd5..ad1fcb7 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -377,11 +377,13 @@ public:
 
     chai::ExecutionSpace const prevSpace = m_pointerRecord->m_last_space;
 
-    if( prevSpace == chai::CPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    // The sub objects are moved through their host copies, when coming back to the host these must be updated first.
+    bool const returnsToHost = prevSpace == chai::GPU && chaiSpace == chai::CPU;
+    if( !returnsToHost ) moveInnerData( space, size, touch );
 
     move( space, touch );
 
-    if( prevSpace == chai::GPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    if( returnsToHost ) moveInnerData( space, size, touch );
   #else
     LVARRAY_ERROR_IF_NE( space, MemorySpace::host );
     LVARRAY_UNUSED_VARIABLE( size );
@@ -473,9 +475,13 @@ private:
   {
     if( space == MemorySpace::undefined ) return;
 
+    // Only the host allocation can be accessed here, m_pointer may point to the allocation in another space.
+    T_non_const * const hostPointer = static_cast< T_non_const * >( m_pointerRecord->m_pointers[ chai::CPU ] );
+    if( hostPointer == nullptr ) return;
+
     for( std::ptrdiff_t i = 0; i < size; ++i )
     {
-      const_cast< T_non_const * >( m_pointer )[ i ].move( space, touch );
+      hostPointer[ i ].move( space, touch );
     }
   }
 
-- 
2.43.0


From c5bec0690473eea115a528476cdd7238ac8a3aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 33/63] fix: pylvarray CRSMatrix.add_to_row reads past the
 columns when given more values than columns

---
 src/python/PyCRSMatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9b81a4b..782c7a1 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -334,6 +334,9 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
     return nullptr;
   }
 
+  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( valsInfo ), PyExc_RuntimeError,
+                   "Number of columns and values must match!", nullptr );
+
   long long const numRows = self->matrix->numRows();
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
-- 
2.43.0


From 0a23809013bdb1fe310561703f091a25cca612d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 34/63] fix: pylvarray ArrayOfSets.erase_from returns a value
 when the conversion of its argument raised an exception

---
 src/python/PyArrayOfSets.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 33192fd..b19e1fc 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -236,6 +236,11 @@ static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject *
   std::tuple< PyObjectRef< PyObject >, void const *, long long > ret =
     parseNumPyArray( arr, self->arrayOfSets->valueType() );
 
+  if( std::get< 0 >( ret ) == nullptr )
+  {
+    return nullptr;
+  }
+
   return PyLong_FromLongLong( self->arrayOfSets->removeFromSet( index,
                                                                 std::get< 1 >( ret ),
                                                                 std::get< 2 >( ret ) ) );
-- 
2.43.0


From eafd5627541f1a8124d6a91caa0d5528906d61f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 35/63] fix: pylvarray ArrayOfArrays and ArrayOfSets objects
 created in Python crash instead of raising an exception

---
 src/python/PyArrayOfArrays.cpp | 7 +++++++
 src/python/PyArrayOfSets.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index d4dcd7c..04ca2f6 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -107,6 +107,7 @@ static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssiz
 
 static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfArrays == nullptr, PyExc_RuntimeError, "The PyArrayOfArrays is not initialized.", -1 );
   if( self->arrayOfArrays->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfArrays is not resizeable" );
@@ -153,6 +154,8 @@ static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insertIntoArray( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long array, index;
   PyObject * arr;
@@ -184,6 +187,8 @@ static constexpr char const * PyArrayOfArrays_insertDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insert( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
@@ -212,6 +217,8 @@ static constexpr char const * PyArrayOfArrays_eraseFromDocString =
   "Remove the value at ``index`` in the subarray ``array``.";
 static PyObject * PyArrayOfArrays_eraseFrom( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index, begin;
   if( !PyArg_ParseTuple( args, "LL", &index, &begin ) )
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index b19e1fc..b14240a 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -107,6 +107,7 @@ static PyObject * PyArrayOfSets_getitem( PyArrayOfSets * const self, Py_ssize_t
 
 static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfSets == nullptr, PyExc_RuntimeError, "The PyArrayOfSets is not initialized.", -1 );
   if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfSets is not resizeable" );
@@ -155,6 +156,8 @@ static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "    The number of values inserted into the set.";
 static PyObject * PyArrayOfSets_insertIntoSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long setIndex;
   PyObject * arr;
@@ -188,6 +191,8 @@ static constexpr char const * PyArrayOfSets_insertSetDocString =
   "Insert a new set with a starting capacity";
 static PyObject * PyArrayOfSets_insertSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   long long capacity = 0;
@@ -219,6 +224,8 @@ static constexpr char const * PyArrayOfSets_removeFromSetDocString =
   "    The number of values removed from the set.";
 static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
-- 
2.43.0


From 9f6b7ae85a49711dba894bd6c592644c3c67001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 36/63] fix: pylvarray Array.resize_all aborts instead of
 raising an exception when given a negative dimension

---
 src/python/PyArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8e36b51..9328469 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -178,7 +178,13 @@ static PyObject * PyArray_resizeAll( PyArray * const self, PyObject * const args
   PYTHON_ERROR_IF( std::get< 2 >( ret ) != self->array->ndim(), PyExc_RuntimeError,
                    "Invalid number of dimensions, should be " << self->array->ndim(), nullptr );
 
-  self->array->resize( reinterpret_cast< long long const * >( std::get< 1 >( ret ) ) );
+  long long const * const newDims = reinterpret_cast< long long const * >( std::get< 1 >( ret ) );
+  for( int i = 0; i < self->array->ndim(); ++i )
+  {
+    PYTHON_ERROR_IF( newDims[ i ] < 0, PyExc_ValueError, "Dimensions must be positive.", nullptr );
+  }
+
+  self->array->resize( newDims );
 
   Py_RETURN_NONE;
 }
-- 
2.43.0


From a6039c612de80c0ecb2b702a2a01e6b4e9eca9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 37/63] fix: addPyLvArrayModule gives up a reference to the
 pylvarray module that it does not own

---
 src/python/python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/python.cpp b/src/python/python.cpp
index 341bab1..6e43a26 100644
--- a/src/python/python.cpp
+++ b/src/python/python.cpp
@@ -151,6 +151,8 @@ bool addPyLvArrayModule( PyObject * module )
     return false;
   }
 
+  // PyModule_AddObject stole the reference.
+  pylvarrayModule.release();
   return true;
 }
 
-- 
2.43.0


From 155b82f33ca6a19cb5ca3cb9054d3aaa9262052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 38/63] fix: the pylvarray objects are never freed

---
 src/python/PyArray.cpp         | 6 +++++-
 src/python/PyArrayOfArrays.cpp | 6 +++++-
 src/python/PyArrayOfSets.cpp   | 6 +++++-
 src/python/PyCRSMatrix.cpp     | 6 +++++-
 src/python/PySortedArray.cpp   | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 9328469..3e9b46b 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -69,7 +69,11 @@ struct PyArray
  * @param self The PyArray to destroy.
  */
 static void PyArray_dealloc( PyArray * const self )
-{ delete self->array; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->array;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 /**
  * @brief The Python __repr__ method for PyArray.
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 04ca2f6..283f00c 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfArrays
 };
 
 static void PyArrayOfArrays_dealloc( PyArrayOfArrays * const self )
-{ delete self->arrayOfArrays; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfArrays;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfArrays_repr( PyObject * const obj )
 {
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index b14240a..8ca0da4 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfSets
 };
 
 static void PyArrayOfSets_dealloc( PyArrayOfSets * const self )
-{ delete self->arrayOfSets; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfSets;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfSets_repr( PyObject * const obj )
 {
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 782c7a1..1ddb2e0 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -64,7 +64,11 @@ struct PyCRSMatrix
 };
 
 static void PyCRSMatrix_dealloc( PyCRSMatrix * const self )
-{ delete self->matrix; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->matrix;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyCRSMatrix_repr( PyObject * const obj )
 {
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 669ba1e..b23e2b1 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -64,7 +64,11 @@ struct PySortedArray
 
 
 static void PySortedArray_dealloc( PySortedArray * const self )
-{ delete self->sortedArray; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->sortedArray;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 
 static PyObject * PySortedArray_repr( PyObject * const obj )
-- 
2.43.0


From 4455080b65c2d8f82d2556984f37198809b4c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 39/63] fix: pylvarray CRSMatrix.to_scipy leaks the arrays it
 creates and crashes when SciPy is not available

---
 src/python/PyCRSMatrix.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 1ddb2e0..1d2f67c 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -169,7 +169,12 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
   PYTHON_ERROR_IF( self->matrix->numRows() == 0, PyExc_RuntimeError,
                    "Empty matrices cannot be exported to SciPy", nullptr );
 
-  std::array< PyObject *, 3 > const triple = self->matrix->getEntriesColumnsAndOffsets();
+  std::array< PyObject *, 3 > const newReferences = self->matrix->getEntriesColumnsAndOffsets();
+  std::array< PyObjectRef<>, 3 > triple;
+  for( std::size_t i = 0; i < 3; ++i )
+  {
+    triple[ i ] = newReferences[ i ];
+  }
 
   PYTHON_ERROR_IF( triple[ 0 ] == nullptr, PyExc_RuntimeError,
                    "Error constructing the entries NumPy array", nullptr );
@@ -181,13 +186,22 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
                    "Error constructing the offsets NumPy array", nullptr );
 
   PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
+  if( sciPySparse == nullptr )
+  {
+    return nullptr;
+  }
+
   PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
+  if( constructor == nullptr )
+  {
+    return nullptr;
+  }
 
   return PyObject_CallFunction( constructor,
-                                "(OOO)(ll)",
-                                triple[ 0 ],
-                                triple[ 1 ],
-                                triple[ 2 ],
+                                "(OOO)(LL)",
+                                triple[ 0 ].get(),
+                                triple[ 1 ].get(),
+                                triple[ 2 ].get(),
                                 self->matrix->numRows(),
                                 self->matrix->numColumns() );
 }
-- 
2.43.0


From 83e2536a59b754528d5431a95b7440d05cabff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 40/63] fix: assigning to a PyObjectRef leaks the reference it
 held

---
 src/python/pythonHelpers.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/pythonHelpers.hpp b/src/python/pythonHelpers.hpp
index 3a5c976..9526b46 100644
--- a/src/python/pythonHelpers.hpp
+++ b/src/python/pythonHelpers.hpp
@@ -189,8 +189,9 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef const & src )
   {
-    m_object = src.m_object;
     internal::xincref( reinterpret_cast< PyObject * >( src.m_object ) );
+    internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+    m_object = src.m_object;
     return *this;
   }
 
@@ -202,8 +203,9 @@ public:
    */
   PyObjectRef & operator=( PyObjectRef && src )
   {
-    m_object = src.m_object;
-    src.m_object = nullptr;
+    T * const newObject = src.release();
+    internal::xdecref( reinterpret_cast< PyObject * >( m_object ) );
+    m_object = newObject;
     return *this;
   }
 
-- 
2.43.0


From a17cc59c42e9cf5a78ded8581049ce375006d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 41/63] fix: strings exported to Python are cut at a null
 character and a list with an invalid string is returned incomplete

---
 src/python/pythonHelpers.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/python/pythonHelpers.cpp b/src/python/pythonHelpers.cpp
index 53f737d..7ebf435 100644
--- a/src/python/pythonHelpers.cpp
+++ b/src/python/pythonHelpers.cpp
@@ -79,18 +79,28 @@ bool addTypeToModule( PyObject * const module,
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * create( std::string const & value )
-{ return PyUnicode_FromString( value.c_str() ); }
+{ return PyUnicode_FromStringAndSize( value.data(), integerConversion< Py_ssize_t >( value.size() ) ); }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * createPyListOfStrings( std::string const * const strptr, long long const size )
 {
-  PyObject * pylist = PyList_New( size );
+  PyObjectRef<> pylist{ PyList_New( size ) };
+  if( pylist == nullptr )
+  {
+    return nullptr;
+  }
+
   for( long long i = 0; i < size; ++i )
   {
-    PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
-    PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
+    PyObject * pystr = create( strptr[ i ] );
+    if( pystr == nullptr )
+    {
+      return nullptr;
+    }
+
+    PyList_SET_ITEM( pylist.get(), integerConversion< Py_ssize_t >( i ), pystr );
   }
-  return pylist;
+  return pylist.release();
 }
 
 } // namespace python
-- 
2.43.0


From e5aac9e7d22555ec8cfbd2ab045c0595d8c1412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 42/63] fix: values of type bool cannot be exported to NumPy

---
 src/python/numpyHelpers.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index 0929fcc..95f2f52 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -50,6 +50,10 @@ namespace internal
  */
 static std::pair< int, std::size_t > getNumPyType( std::type_index const typeIndex )
 {
+  if( typeIndex == std::type_index( typeid( bool ) ) )
+  {
+    return { NPY_BOOL, sizeof( bool ) };
+  }
   if( typeIndex == std::type_index( typeid( char ) ) )
   {
     return { std::is_signed< char >::value ? NPY_BYTE : NPY_UBYTE, sizeof( char ) };
@@ -275,6 +279,10 @@ parseNumPyArray( PyObject * const obj, std::type_index const expectedType )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 std::type_index getTypeIndexFromNumPy( int const numpyType )
 {
+  if( numpyType == NPY_BOOL )
+  {
+    return typeid( bool );
+  }
   if( numpyType == NPY_BYTE )
   {
     return typeid( signed char );
@@ -334,6 +342,10 @@ std::type_index getTypeIndexFromNumPy( int const numpyType )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 std::string getNumPyTypeName( int const numpyType )
 {
+  if( numpyType == NPY_BOOL )
+  {
+    return "NPY_BOOL";
+  }
   if( numpyType == NPY_BYTE )
   {
     return "NPY_BYTE";
-- 
2.43.0


From 8bd79208ea9a5cb61daf58f9a5911420a0dd5f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 43/63] fix: inserting into or removing from a pylvarray set
 corrupts it when the values are not sorted and unique

The values passed in from Python are arbitrary, they may also be a view of the
set itself.
---
 src/python/PyArrayOfSets.hpp | 11 +++++++----
 src/python/PySortedArray.hpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/python/PyArrayOfSets.hpp b/src/python/PyArrayOfSets.hpp
index 93f77cb..44516c3 100644
--- a/src/python/PyArrayOfSets.hpp
+++ b/src/python/PyArrayOfSets.hpp
@@ -33,6 +33,7 @@
 // System includes
 #include <string>
 #include <memory>
+#include <set>
 #include <typeindex>
 
 namespace LvArray
@@ -113,7 +114,7 @@ public:
   /**
    * @brief Remove values from the a set.
    * @param setIndex The set to remove from.
-   * @param values The values to remove. Must be of type @c valueType, of length @c numVals, and sorted unique.
+   * @param values The values to remove. Must be of type @c valueType and of length @c numVals.
    * @param numVals The number of values to remove.
    * @return The number of values removed.
    * @note This wraps ArrayOfSets::removeFromSet.
@@ -123,7 +124,7 @@ public:
   /**
    * @brief Insert values into a set.
    * @param setIndex The set to insert into.
-   * @param values The values to insert. Must be of type @c valueType, of length @c numVals, and sorted unique.
+   * @param values The values to insert. Must be of type @c valueType and of length @c numVals.
    * @param numVals The number of values to insert.
    * @return The number of values inserted.
    * @note This wraps ArrayOfSets::insertIntoSet.
@@ -227,7 +228,8 @@ public:
     INDEX_TYPE convertedIndex = integerConversion< INDEX_TYPE >( setIndex );
     T const * begin = static_cast< T const * >( values );
     T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, begin, end ) );
+    std::set< T > const sortedUnique( begin, end );
+    return integerConversion< long long >( m_arrayOfSets.removeFromSet( convertedIndex, sortedUnique.begin(), sortedUnique.end() ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -238,7 +240,8 @@ public:
     INDEX_TYPE convertedSetIndex = integerConversion< INDEX_TYPE >( setIndex );
     T const * begin = static_cast< T const * >( values );
     T const * end = begin + numVals;
-    return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, begin, end ) );
+    std::set< T > const sortedUnique( begin, end );
+    return integerConversion< long long >( m_arrayOfSets.insertIntoSet( convertedSetIndex, sortedUnique.begin(), sortedUnique.end() ) );
   }
 
 private:
diff --git a/src/python/PySortedArray.hpp b/src/python/PySortedArray.hpp
index 8b0c9a5..053b4cd 100644
--- a/src/python/PySortedArray.hpp
+++ b/src/python/PySortedArray.hpp
@@ -33,6 +33,7 @@
 // System includes
 #include <string>
 #include <memory>
+#include <set>
 #include <typeindex>
 
 namespace LvArray
@@ -83,7 +84,7 @@ public:
 
   /**
    * @brief Insert values into the set.
-   * @param values The values to insert. Must be of type @c valueType, of length @c nVals and sorted unique.
+   * @param values The values to insert. Must be of type @c valueType and of length @c nVals.
    * @param nVals The number of values to insert.
    * @return The number of values inserted.
    * @note This wraps SortedArray::insert.
@@ -92,7 +93,7 @@ public:
 
   /**
    * @brief Remove values from the set.
-   * @param values The values to remove. Must be of type @c valueType, of length @c nVals and sorted unique.
+   * @param values The values to remove. Must be of type @c valueType and of length @c nVals.
    * @param nVals The number of values to remove.
    * @return The number of values removed.
    * @note This wraps SortedArray::remove.
@@ -169,14 +170,16 @@ public:
   virtual long long insert( void const * const values, long long const nVals ) final override
   {
     T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.insert( castedValues, castedValues + nVals ) );
+    std::set< T > const sortedUnique( castedValues, castedValues + nVals );
+    return integerConversion< long long >( m_sortedArray.insert( sortedUnique.begin(), sortedUnique.end() ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
   virtual long long remove( void const * const values, long long const nVals ) final override
   {
     T const * const castedValues = reinterpret_cast< T const * >( values );
-    return integerConversion< long long >( m_sortedArray.remove( castedValues, castedValues + nVals ) );
+    std::set< T > const sortedUnique( castedValues, castedValues + nVals );
+    return integerConversion< long long >( m_sortedArray.remove( sortedUnique.begin(), sortedUnique.end() ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 19fec7de91be64b8a46e25c0d710bfd2be18df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 44/63] fix: the pylvarray CRSMatrix methods corrupt the matrix
 when the columns are not sorted, unique and in bounds

The columns passed in from Python are arbitrary. They are sorted before they
are inserted or removed and columns that are out of bounds, repeated in an
insertion or that do not exist in the row that is added to raise an exception.
---
 src/python/PyCRSMatrix.cpp | 32 ++++++++++++-------
 src/python/PyCRSMatrix.hpp | 65 +++++++++++++++++++++++++++++++-------
 2 files changed, 75 insertions(+), 22 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 1d2f67c..9a2829d 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -280,10 +280,14 @@ static PyObject * PyCRSMatrix_insertNonZeros( PyCRSMatrix * const self, PyObject
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
-  return PyLong_FromLongLong( self->matrix->insertNonZeros( row,
-                                                            std::get< 1 >( colsInfo ),
-                                                            std::get< 1 >( entriesInfo ),
-                                                            std::get< 2 >( entriesInfo ) ) );
+  long long const numInserted = self->matrix->insertNonZeros( row,
+                                                              std::get< 1 >( colsInfo ),
+                                                              std::get< 1 >( entriesInfo ),
+                                                              std::get< 2 >( entriesInfo ) );
+
+  PYTHON_ERROR_IF( numInserted < 0, PyExc_ValueError, "The columns must be unique and in bounds.", nullptr );
+
+  return PyLong_FromLongLong( numInserted );
 }
 
 static constexpr char const * PyCRSMatrix_removeNonZerosDocString =
@@ -317,9 +321,13 @@ static PyObject * PyCRSMatrix_removeNonZeros( PyCRSMatrix * const self, PyObject
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
-  return PyLong_FromLongLong( self->matrix->removeNonZeros( row,
-                                                            std::get< 1 >( colsInfo ),
-                                                            std::get< 2 >( colsInfo ) ) );
+  long long const numRemoved = self->matrix->removeNonZeros( row,
+                                                             std::get< 1 >( colsInfo ),
+                                                             std::get< 2 >( colsInfo ) );
+
+  PYTHON_ERROR_IF( numRemoved < 0, PyExc_ValueError, "The columns must be in bounds.", nullptr );
+
+  return PyLong_FromLongLong( numRemoved );
 }
 
 static constexpr char const * PyCRSMatrix_addToRowDocString =
@@ -359,10 +367,12 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
 
-  self->matrix->addToRow( row,
-                          std::get< 1 >( colsInfo ),
-                          std::get< 1 >( valsInfo ),
-                          std::get< 2 >( valsInfo ) );
+  bool const added = self->matrix->addToRow( row,
+                                             std::get< 1 >( colsInfo ),
+                                             std::get< 1 >( valsInfo ),
+                                             std::get< 2 >( valsInfo ) );
+
+  PYTHON_ERROR_IF( !added, PyExc_ValueError, "Each of the columns must already exist in the row.", nullptr );
 
   Py_RETURN_NONE;
 }
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b7659e3..b748494 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -34,8 +34,10 @@
 #include <RAJA/RAJA.hpp>
 
 // System includes
+#include <algorithm>
 #include <string>
 #include <memory>
+#include <vector>
 #include <typeindex>
 
 namespace LvArray
@@ -155,7 +157,8 @@ public:
    * @param cols The columns to insert, must be of type @c columnType() and length @c numCols.
    * @param entries The entries to insert, must be of type @c entryType() and length @c numCols.
    * @param numCols The number of columns to insert.
-   * @return The number of entries inserted.
+   * @return The number of entries inserted, or -1 if the columns are not unique or out of bounds in which case
+   *   the matrix is not modified.
    * @note This wraps CRSMatrix::insertNonZeros.
    */
   virtual long long insertNonZeros( long long const row,
@@ -168,7 +171,8 @@ public:
    * @param row The row to remove from.
    * @param cols The columns to remove, must be of type @c columnType() and length @c numCols.
    * @param numCols The number of columns to insert.
-   * @return The number of entries removed.
+   * @return The number of entries removed, or -1 if a column is out of bounds in which case
+   *   the matrix is not modified.
    * @note This wraps CRSMatrix::removeNonZeros.
    */
   virtual long long removeNonZeros( long long const row,
@@ -181,9 +185,10 @@ public:
    * @param cols The columns to add to, must be of type @c columnType() and length @c numCols.
    * @param vals The values to add, must be of type @c entryType() and length @c numCols.
    * @param numCols The number of columns to add to.
+   * @return False if a column is not in the row in which case the matrix is not modified.
    * @note This wraps CRSMatrix::addToRowBinarySearchUnsorted.
    */
-  virtual void addToRow( long long const row,
+  virtual bool addToRow( long long const row,
                          void const * const cols,
                          void const * const vals,
                          long long const numCols ) const = 0;
@@ -345,7 +350,16 @@ public:
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     T const * const castedEntries = reinterpret_cast< T const * >( entries );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, castedCols, castedEntries, convertedNumCols ) );
+
+    std::vector< COL_TYPE > sortedCols( castedCols, castedCols + numCols );
+    std::unique_ptr< T[] > const sortedEntries( new T[ numCols ] );
+    std::copy( castedEntries, castedEntries + numCols, sortedEntries.get() );
+    sortedArrayManipulation::dualSort( sortedCols.begin(), sortedCols.end(), sortedEntries.get() );
+    if( !columnsInBounds( sortedCols ) ||
+        !sortedArrayManipulation::isSortedUnique( sortedCols.begin(), sortedCols.end() ) )
+    { return -1; }
+
+    return integerConversion< long long >( m_matrix.insertNonZeros( convertedRow, sortedCols.data(), sortedEntries.get(), convertedNumCols ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -355,12 +369,18 @@ public:
   {
     INDEX_TYPE const convertedRow = integerConversion< INDEX_TYPE >( row );
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
-    INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow, castedCols, convertedNumCols ) );
+
+    std::vector< COL_TYPE > sortedCols( castedCols, castedCols + numCols );
+    sortedCols.resize( sortedArrayManipulation::makeSortedUnique( sortedCols.begin(), sortedCols.end() ) );
+    if( !columnsInBounds( sortedCols ) )
+    { return -1; }
+
+    INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( sortedCols.size() );
+    return integerConversion< long long >( m_matrix.removeNonZeros( convertedRow, sortedCols.data(), convertedNumCols ) );
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-  virtual void addToRow( long long const row,
+  virtual bool addToRow( long long const row,
                          void const * const cols,
                          void const * const vals,
                          long long const numCols ) const final override
@@ -369,13 +389,36 @@ public:
     COL_TYPE const * const castedCols = reinterpret_cast< COL_TYPE const * >( cols );
     T const * const castedVals = reinterpret_cast< T const * >( vals );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
-    return m_matrix.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( convertedRow,
-                                                                               castedCols,
-                                                                               castedVals,
-                                                                               convertedNumCols );
+
+    COL_TYPE const * const rowColumns = m_matrix.getColumns( convertedRow );
+    INDEX_TYPE const nnz = m_matrix.numNonZeros( convertedRow );
+    for( INDEX_TYPE i = 0; i < convertedNumCols; ++i )
+    {
+      if( !sortedArrayManipulation::contains( rowColumns, nnz, castedCols[ i ] ) )
+      { return false; }
+    }
+
+    m_matrix.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( convertedRow,
+                                                                        castedCols,
+                                                                        castedVals,
+                                                                        convertedNumCols );
+    return true;
   }
 
 private:
+
+  /**
+   * @brief Return true iff each of the columns is in the bounds of the matrix.
+   * @param sortedCols The columns, must be sorted.
+   * @return True iff each of the columns is in the bounds of the matrix.
+   */
+  bool columnsInBounds( std::vector< COL_TYPE > const & sortedCols ) const
+  {
+    return sortedCols.empty() ||
+           ( integerConversion< long long >( sortedCols.front() ) >= 0 &&
+             integerConversion< long long >( sortedCols.back() ) < numColumns() );
+  }
+
   /// The CRSMatrix to wrap.
   CRSMatrix< T, COL_TYPE, INDEX_TYPE, BUFFER_TYPE > & m_matrix;
 };
-- 
2.43.0


From 7953a093c30a2984947989c01fd43546e141c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 45/63] fix: pylvarray CRSMatrix.resize aborts instead of
 raising an exception when the column type is too small

---
 src/python/PyCRSMatrix.cpp |  5 ++++-
 src/python/PyCRSMatrix.hpp | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9a2829d..ecd1af0 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -225,7 +225,10 @@ static PyObject * PyCRSMatrix_resize( PyCRSMatrix * const self, PyObject * const
   PYTHON_ERROR_IF( numRows < 0 || numCols < 0 || initialRowCapacity < 0, PyExc_RuntimeError,
                    "Arguments must be positive.", nullptr );
 
-  self->matrix->resize( numRows, numCols, initialRowCapacity );
+  bool const resized = self->matrix->resize( numRows, numCols, initialRowCapacity );
+
+  PYTHON_ERROR_IF( !resized, PyExc_ValueError,
+                   "The column type of the matrix can not hold " << numCols << " columns.", nullptr );
 
   Py_RETURN_NONE;
 }
diff --git a/src/python/PyCRSMatrix.hpp b/src/python/PyCRSMatrix.hpp
index b748494..96311da 100644
--- a/src/python/PyCRSMatrix.hpp
+++ b/src/python/PyCRSMatrix.hpp
@@ -139,9 +139,10 @@ public:
    * @param numRows The new number of rows in the matrix.
    * @param numCols The new number of columns in the matrix.
    * @param initialRowCapacity The non-zero capacity per-row.
+   * @return False if the column type can't hold the range of columns in which case the matrix is not modified.
    * @note This wraps CRSMatrix::resize.
    */
-  virtual void resize( long long const numRows,
+  virtual bool resize( long long const numRows,
                        long long const numCols,
                        long long const initialRowCapacity ) = 0;
 
@@ -326,14 +327,18 @@ public:
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-  virtual void resize( long long const numRows,
+  virtual bool resize( long long const numRows,
                        long long const numCols,
                        long long const initialRowCapacity ) final override
   {
+    if( numCols > 0 && !fitsColumnType( numCols - 1 ) )
+    { return false; }
+
     INDEX_TYPE const convertedNumRows = integerConversion< INDEX_TYPE >( numRows );
     INDEX_TYPE const convertedNumCols = integerConversion< INDEX_TYPE >( numCols );
     INDEX_TYPE const convertedCapacity = integerConversion< INDEX_TYPE >( initialRowCapacity );
     m_matrix.resize( convertedNumRows, convertedNumCols, convertedCapacity );
+    return true;
   }
 
   /////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -407,6 +412,14 @@ public:
 
 private:
 
+  /**
+   * @brief Return true iff the column type can hold @p column.
+   * @param column The column, must be positive.
+   * @return True iff the column type can hold @p column.
+   */
+  static constexpr bool fitsColumnType( long long const column )
+  { return static_cast< unsigned long long >( column ) <= static_cast< unsigned long long >( std::numeric_limits< COL_TYPE >::max() ); }
+
   /**
    * @brief Return true iff each of the columns is in the bounds of the matrix.
    * @param sortedCols The columns, must be sorted.
-- 
2.43.0


From 430da5eafe8fa07ff900d3a5b373aba7da6d26a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 46/63] fix: concatenating or repeating a pylvarray
 ArrayOfArrays or ArrayOfSets returns NotImplemented instead of raising an
 exception

---
 src/python/PyArrayOfArrays.cpp | 6 ++++--
 src/python/PyArrayOfSets.cpp   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 283f00c..e781eb1 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -140,14 +140,16 @@ static PyObject * PyArrayOfArrays_sq_concat( PyArrayOfArrays * self, PyObject *
 {
   LVARRAY_UNUSED_VARIABLE( self );
   LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
+  PyErr_SetString( PyExc_TypeError, "ArrayOfArrays object does not support concatenation" );
+  return nullptr;
 }
 
 static PyObject * PyArrayOfArrays_sq_repeat( PyArrayOfArrays * self, Py_ssize_t args )
 {
   LVARRAY_UNUSED_VARIABLE( self );
   LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
+  PyErr_SetString( PyExc_TypeError, "ArrayOfArrays object does not support repetition" );
+  return nullptr;
 }
 
 static constexpr char const * PyArrayOfArrays_insertIntoDocString =
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 8ca0da4..4ebd61b 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -140,14 +140,16 @@ static PyObject * PyArrayOfSets_sq_concat( PyArrayOfSets * self, PyObject * args
 {
   LVARRAY_UNUSED_VARIABLE( self );
   LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
+  PyErr_SetString( PyExc_TypeError, "ArrayOfSets object does not support concatenation" );
+  return nullptr;
 }
 
 static PyObject * PyArrayOfSets_sq_repeat( PyArrayOfSets * self, Py_ssize_t args )
 {
   LVARRAY_UNUSED_VARIABLE( self );
   LVARRAY_UNUSED_VARIABLE( args );
-  Py_RETURN_NOTIMPLEMENTED;
+  PyErr_SetString( PyExc_TypeError, "ArrayOfSets object does not support repetition" );
+  return nullptr;
 }
 
 static constexpr char const * PyArrayOfSets_insertIntoDocString =
-- 
2.43.0


From 97057dbd74fa53b37387afd2aaaa4bac8cf4c89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 47/63] fix: resetSignalHandling does not restore a disposition
 that was installed with sigaction

signal only returns the handler, so a handler taking siginfo was reinstalled as
a plain one and the flags and the mask were lost.
---
 src/system.cpp | 64 ++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 3762563..92edfe0 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -351,11 +351,8 @@ namespace LvArray
 namespace system
 {
 
-/// An alias for a function that takes an int and returns nothing.
-using handle_type = void ( * )( int );
-
-/// A map containing the initial signal handlers.
-static std::map< int, handle_type > initialHandler;
+/// A map containing the initial signal dispositions.
+static std::map< int, struct sigaction > initialHandler;
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 std::string stackTrace( bool const location )
@@ -491,33 +488,38 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
-  // If the handlers haven't been reset since they were last set then the ones replaced below aren't the initial ones.
-  std::map< int, handle_type > const previousInitialHandler = initialHandler;
-
-  initialHandler[SIGHUP] = signal( SIGHUP, handler );
-  initialHandler[SIGINT] = signal( SIGINT, handler );
-  initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
-  initialHandler[SIGILL] = signal( SIGILL, handler );
-  initialHandler[SIGTRAP] = signal( SIGTRAP, handler );
-  initialHandler[SIGABRT] = signal( SIGABRT, handler );
+  auto const install = [handler] ( int const sig )
+  {
+    // The return value of signal would not be enough to restore a disposition set with sigaction. If the handlers
+    // haven't been reset since they were last set then the one replaced here isn't the initial one.
+    struct sigaction initial;
+    if( sigaction( sig, nullptr, &initial ) == 0 )
+    {
+      initialHandler.emplace( sig, initial );
+    }
+
+    signal( sig, handler );
+  };
+
+  install( SIGHUP );
+  install( SIGINT );
+  install( SIGQUIT );
+  install( SIGILL );
+  install( SIGTRAP );
+  install( SIGABRT );
 #if  (defined(_POSIX_C_SOURCE) && !defined(_DARWIN_C_SOURCE))
-  initialHandler[SIGPOLL] = signal( SIGPOLL, handler );
+  install( SIGPOLL );
 #else
-  initialHandler[SIGIOT] = signal( SIGIOT, handler );
-  initialHandler[SIGEMT] = signal( SIGEMT, handler );
+  install( SIGIOT );
+  install( SIGEMT );
 #endif
-  initialHandler[SIGFPE] = signal( SIGFPE, handler );
-  initialHandler[SIGKILL] = signal( SIGKILL, handler );
-  initialHandler[SIGBUS] = signal( SIGBUS, handler );
-  initialHandler[SIGSEGV] = signal( SIGSEGV, handler );
-  initialHandler[SIGSYS] = signal( SIGSYS, handler );
-  initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
-  initialHandler[SIGTERM] = signal( SIGTERM, handler );
-
-  for( auto const & a : previousInitialHandler )
-  {
-    initialHandler[ a.first ] = a.second;
-  }
+  install( SIGFPE );
+  install( SIGKILL );
+  install( SIGBUS );
+  install( SIGSEGV );
+  install( SIGSYS );
+  install( SIGPIPE );
+  install( SIGTERM );
 
   return;
 }
@@ -525,9 +527,9 @@ void setSignalHandling( void (* handler)( int ) )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void resetSignalHandling()
 {
-  for( auto a : initialHandler )
+  for( auto const & a : initialHandler )
   {
-    signal( a.first, a.second );
+    sigaction( a.first, &a.second, nullptr );
   }
 
   initialHandler.clear();
-- 
2.43.0


From 9ccbe39e7b66d65468fe81d4ad334813000237c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 48/63] fix: PythonFunction converts the remaining arguments
 after one could not be converted

Calling into Python or numpy with an exception set replaced the exception
by a SystemError or cleared it, in which case the PythonError that was
thrown had no Python exception to go with it.
---
 src/python/PyFunc.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/python/PyFunc.hpp b/src/python/PyFunc.hpp
index 31e7667..7618e3b 100644
--- a/src/python/PyFunc.hpp
+++ b/src/python/PyFunc.hpp
@@ -86,14 +86,13 @@ public:
     typeManipulation::forEachArg( [&i, &pyArgs]( auto & arg )
     {
       pyArgs[ i ] = create( arg );
-      ++i;
-    }, args ... );
 
-    for( i = 0; i < ARGC; ++i )
-    {
+      // Stop here, no other argument may be converted while a Python exception is set.
       if( pyArgs[ i ] == nullptr )
       { throw PythonError(); }
-    }
+
+      ++i;
+    }, args ... );
 
     // callPyFunc steals all of the pyArgs references
     internal::callPyFunc( m_function, pyArgs, ARGC );
-- 
2.43.0


From b057f82c84088093b38af4ddb97a0db311b31fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:55 +0000
Subject: [PATCH 49/63] fix: max, min and abs of a __half2 are wrong for large
 and infinite values

Selecting with products turns an infinity that was not selected into a NaN,
and x + x overflows for |x| >= 32768 so that abs returned NaN or infinity.
---
 src/math.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/math.hpp b/src/math.hpp
index b197055..6899f38 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -337,9 +337,7 @@ __half2 max( __half2 const a, __half2 const b )
 #if CUDART_VERSION > 11000 && (__CUDA_ARCH__ >= 800 || !defined(__CUDA_ARCH__))
   return __hmax2( a, b );
 #else
-  __half2 const aFactor = __hge2( a, b );
-  __half2 const bFactor = convert< __half2 >( 1 ) - aFactor;
-  return a * aFactor + bFactor * b;
+  return convert< __half2 >( max( getFirst( a ), getFirst( b ) ), max( getSecond( a ), getSecond( b ) ) );
 #endif
 }
 
@@ -384,9 +382,7 @@ __half2 min( __half2 const a, __half2 const b )
 #if CUDART_VERSION > 11000 && (__CUDA_ARCH__ >= 800 || !defined(__CUDA_ARCH__))
   return __hmin2( a, b );
 #else
-  __half2 const aFactor = __hle2( a, b );
-  __half2 const bFactor = convert< __half2 >( 1 ) - aFactor;
-  return a * aFactor + bFactor * b;
+  return convert< __half2 >( min( getFirst( a ), getFirst( b ) ), min( getSecond( a ), getSecond( b ) ) );
 #endif
 }
 
@@ -428,7 +424,7 @@ __half2 abs( __half2 const x )
 #if CUDART_VERSION > 11000
   return __habs2( x );
 #else
-  return x - __hle2( x, convert< __half2 >( 0 ) ) * ( x + x );
+  return convert< __half2 >( abs( getFirst( x ) ), abs( getSecond( x ) ) );
 #endif
 }
 
-- 
2.43.0


From da9d480b1113e5d1eb8ebfd5f29945fb81849828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 50/63] fix: stackTrace omits the calling function in optimized
 builds

---
 src/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index 92edfe0..0d5f83a 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -81,7 +81,9 @@ static _Unwind_Reason_Code unwindCallback( _Unwind_Context * const context, void
  * @param maxFrames The maximum number of frames to collect.
  * @param skip The number of initial frames to skip.
  * @note Adapted from https://github.com/boostorg/stacktrace
+ * @note This must not be inlined, its own frame is one of the frames that are skipped.
  */
+__attribute__(( noinline ))
 static std::size_t collect( void * * const frames, std::size_t const maxFrames, std::size_t const skip )
 {
   std::size_t frames_count = 0;
-- 
2.43.0


From ca7717e738477b02de405f04946732ad037675e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 51/63] fix: the number of frames printed by stackTrace is one
 too small

---
 src/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system.cpp b/src/system.cpp
index 0d5f83a..4334604 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -365,7 +365,7 @@ std::string stackTrace( bool const location )
   std::size_t const size = collect( array, MAX_FRAMES, 1 );
 
   std::ostringstream oss;
-  oss << "\n** StackTrace of " << size - 1 << " frames **\n";
+  oss << "\n** StackTrace of " << size << " frames **\n";
   for( std::size_t i = 0; i < size; ++i )
   {
     oss << "Frame " << i << ": " << getFunctionNameFromFrame( array[ i ] );
-- 
2.43.0


From 1977edd73ba43c571b81be5edfd5c31e139b9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 52/63] fix: stack traces have no locations in shared objects
 and position independent executables

---
 src/system.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index 4334604..7a9ecd4 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -10,6 +10,7 @@
 #include "Macros.hpp"
 
 // System includes
+#include <cstdint>
 #include <map>
 #include <sstream>
 #include <iostream>
@@ -26,6 +27,9 @@
 #include <unwind.h>
 
 #if defined( LVARRAY_ADDR2LINE_EXEC )
+  #if defined( __ELF__ )
+    #include <link.h>
+  #endif
   #include <unistd.h>
   #include <sys/wait.h>
 #endif
@@ -231,6 +235,8 @@ private:
  * @param flag The flag to pass to addr2line.
  * @param addr The address to pass to addr2line.
  * @return The result of calling @c addr2line @p flag @c pathToCurrentExecutable @p addr.
+ * @note In a shared object or a position independent executable the address passed to @c addr2line
+ *   is relative to where it was loaded.
  */
 static std::string addr2line( const char * flag, const void * addr )
 {
@@ -240,6 +246,15 @@ static std::string addr2line( const char * flag, const void * addr )
   if( dladdr( addr, &dli ) )
   {
     res = dli.dli_fname;
+
+    #if defined( __ELF__ )
+    ElfW( Ehdr ) const * const header = static_cast< ElfW( Ehdr ) const * >( dli.dli_fbase );
+    if( header->e_type == ET_DYN )
+    {
+      addr = reinterpret_cast< void const * >( reinterpret_cast< std::uintptr_t >( addr ) -
+                                               reinterpret_cast< std::uintptr_t >( dli.dli_fbase ) );
+    }
+    #endif
   }
   else
   {
-- 
2.43.0


From 4c44adbb635739a5dc501565f972f0738b657165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 53/63] fix: stack traces look up the address after a call
 instead of the call

---
 src/system.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 7a9ecd4..0ef5cce 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -60,7 +60,7 @@ struct UnwindState
 static _Unwind_Reason_Code unwindCallback( _Unwind_Context * const context, void * const arg )
 {
   // Note: do not write `::_Unwind_GetIP` because it is a macro on some platforms.
-  // Use `_Unwind_GetIP` instead!
+  // Use `_Unwind_GetIP` instead! The same goes for `_Unwind_GetIPInfo`.
   UnwindState * const state = static_cast< UnwindState * >(arg);
   if( state->framesToSkip )
   {
@@ -68,7 +68,14 @@ static _Unwind_Reason_Code unwindCallback( _Unwind_Context * const context, void
     return _Unwind_GetIP( context ) ? _URC_NO_REASON : _URC_END_OF_STACK;
   }
 
-  *state->current = reinterpret_cast< void * >( _Unwind_GetIP( context ) );
+  // Unless the frame was interrupted by a signal this is the address to return to, which can belong to
+  // another line or if the call doesn't return even to another function than the call itself.
+  int interrupted = 0;
+  std::uintptr_t address = _Unwind_GetIPInfo( context, &interrupted );
+  if( address != 0 && !interrupted )
+  { --address; }
+
+  *state->current = reinterpret_cast< void * >( address );
 
   ++state->current;
   if( !*(state->current - 1) || state->current == state->end )
@@ -80,7 +87,7 @@ static _Unwind_Reason_Code unwindCallback( _Unwind_Context * const context, void
 }
 
 /**
- * @brief Populate @p frames with the stack return addresses.
+ * @brief Populate @p frames with the addresses of the calls on the stack.
  * @param frames A pointer to the buffer to fill, must have length at least @p maxFrames.
  * @param maxFrames The maximum number of frames to collect.
  * @param skip The number of initial frames to skip.
-- 
2.43.0


From 446026a8a223064901300f4f2602528df35c9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 54/63] fix: gdb shows one length or wrong ones as the size of
 an ArraySlice

---
 scripts/gdb-printers.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/scripts/gdb-printers.py b/scripts/gdb-printers.py
index b065d9e..650acd7 100644
--- a/scripts/gdb-printers.py
+++ b/scripts/gdb-printers.py
@@ -2,12 +2,8 @@ import gdb
 import itertools
 
 
-def array_length(arr):
-    return int(arr.type.sizeof / arr.type.target().sizeof)
-
-
-def format_array(arr):
-    return '[' + ']['.join([str(arr[i]) for i in range(array_length(arr))]) + ']'
+def format_array(arr, length):
+    return '[' + ']['.join([str(arr[i]) for i in range(length)]) + ']'
 
 
 class LvArrayPrinter(gdb.printing.PrettyPrinter):
@@ -122,7 +118,7 @@ class ArraySlicePrinter(LvArrayPrinter):
         return self.val['m_data']
 
     def to_string(self):
-        return '%s of size %s' % (self.real_type(), format_array(self.dims()))
+        return '%s of size %s' % (self.real_type(), format_array(self.dims(), int(self.ndim())))
 
     def children(self):
         array_type = self.value_type()
@@ -150,7 +146,7 @@ class ArrayViewPrinter(LvArrayPrinter):
         return buffer_printer(self.val['m_dataBuffer']).data()
 
     def to_string(self):
-        return '%s of size %s' % (self.real_type(), format_array(self.dims()))
+        return '%s of size %s' % (self.real_type(), format_array(self.dims(), int(self.ndim())))
 
     def children(self):
         array_type = self.value_type()
-- 
2.43.0


From 85275968d5a41928a28f1b7492303401eb64a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 55/63] fix: emplace of an Array's own element reads a value
 that has been moved

Array::emplace_back and Array::emplace are documented to behave exactly like
their std::vector counterpart, for which v.emplace_back( v[ 0 ] ) is valid.
They constructed the new value after the reallocation or the shift that
invalidates a reference to an element of the array.
---
 src/bufferManipulation.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bufferManipulation.hpp b/src/bufferManipulation.hpp
index 62b9453..e6ddcd4 100644
--- a/src/bufferManipulation.hpp
+++ b/src/bufferManipulation.hpp
@@ -298,8 +298,16 @@ void emplaceBack( BUFFER & buf, std::ptrdiff_t const size, ARGS && ... args )
 {
   check( buf, size );
 
+  if( size < buf.capacity() )
+  {
+    arrayManipulation::emplaceBack( buf.data(), size, std::forward< ARGS >( args ) ... );
+    return;
+  }
+
+  // The arguments may refer to values of the buffer so the new value is constructed before they are moved.
+  typename BUFFER::value_type value( std::forward< ARGS >( args ) ... );
   dynamicReserve( buf, size, size + 1 );
-  arrayManipulation::emplaceBack( buf.data(), size, std::forward< ARGS >( args ) ... );
+  arrayManipulation::emplaceBack( buf.data(), size, std::move( value ) );
 }
 
 /**
@@ -319,8 +327,10 @@ void emplace( BUFFER & buf,
 {
   checkInsert( buf, size, pos );
 
+  // The arguments may refer to values of the buffer so the new value is constructed before they are moved.
+  typename BUFFER::value_type value( std::forward< ARGS >( args ) ... );
   dynamicReserve( buf, size, size + 1 );
-  arrayManipulation::emplace( buf.data(), size, pos, std::forward< ARGS >( args ) ... );
+  arrayManipulation::emplace( buf.data(), size, pos, std::move( value ) );
 }
 
 /**
-- 
2.43.0


From 3d0a5df5e30d98314424165d08f975a38a46e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 56/63] fix: emplace of an ArrayOfArrays' own value reads a
 value that has been moved

---
 src/ArrayOfArrays.hpp     | 20 ++++++++++++++++++--
 src/ArrayOfArraysView.hpp |  4 +++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 8e5fdfa..9b5c913 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -351,8 +351,16 @@ public:
   template< typename ... ARGS >
   void emplaceBack( INDEX_TYPE const i, ARGS && ... args )
   {
+    if( sizeOfArray( i ) < capacityOfArray( i ) )
+    {
+      ParentClass::emplaceBack( i, std::forward< ARGS >( args )... );
+      return;
+    }
+
+    // The arguments may refer to values of this so the new value is constructed before they are moved.
+    T value( std::forward< ARGS >( args )... );
     dynamicallyGrowArray( i, 1 );
-    ParentClass::emplaceBack( i, std::forward< ARGS >( args )... );
+    ParentClass::emplaceBack( i, std::move( value ) );
   }
 
   /**
@@ -382,8 +390,16 @@ public:
   template< typename ... ARGS >
   void emplace( INDEX_TYPE const i, INDEX_TYPE const j, ARGS && ... args )
   {
+    if( sizeOfArray( i ) < capacityOfArray( i ) )
+    {
+      ParentClass::emplace( i, j, std::forward< ARGS >( args )... );
+      return;
+    }
+
+    // The arguments may refer to values of this so the new value is constructed before they are moved.
+    T value( std::forward< ARGS >( args )... );
     dynamicallyGrowArray( i, 1 );
-    ParentClass::emplace( i, j, std::forward< ARGS >( args )... );
+    ParentClass::emplace( i, j, std::move( value ) );
   }
 
   /**
diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 2254d0d..5cd3592 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -508,8 +508,10 @@ public:
     ARRAYOFARRAYS_CHECK_INSERT_BOUNDS2( i, j );
     ARRAYOFARRAYS_CAPACITY_CHECK( i, 1 );
 
+    // The arguments may refer to values of the array so the new value is constructed before they are shifted.
+    T value( std::forward< ARGS >( args )... );
     T * const ptr = m_values.data() + m_offsets[ i ];
-    arrayManipulation::emplace( ptr, sizeOfArray( i ), j, std::forward< ARGS >( args )... );
+    arrayManipulation::emplace( ptr, sizeOfArray( i ), j, std::move( value ) );
     m_sizes[ i ]++;
   }
 
-- 
2.43.0


From 5b42e75c88c69e233d01f4539c6db5229d97297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 57/63] fix: resizeDefault of an Array to one of its own values
 reads a value that has been moved

---
 src/Array.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 65cb655..c2ced97 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -433,9 +433,14 @@ public:
    * @note This preserves the values in the Array.
    * @note The default dimension is given by m_singleParameterResizeIndex.
    */
+  DISABLE_HD_WARNING
   LVARRAY_HOST_DEVICE
   void resizeDefault( INDEX_TYPE const newdim, T const & defaultValue )
-  { resizeDefaultDimension( newdim, defaultValue ); }
+  {
+    // The default value may be a value of this Array so it is copied before it is moved.
+    T const value( defaultValue );
+    resizeDefaultDimension( newdim, value );
+  }
 
   /**
    * @brief Sets the size of the Array to zero and destroys all the values.
-- 
2.43.0


From 7bc037ea70a700881c979e0b077682ff3453c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 58/63] fix: inserting a value of one set of an ArrayOfSets
 into another reads a value that has been moved

---
 src/sortedArrayManipulation.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sortedArrayManipulation.hpp b/src/sortedArrayManipulation.hpp
index 7e9cae5..e401d8b 100644
--- a/src/sortedArrayManipulation.hpp
+++ b/src/sortedArrayManipulation.hpp
@@ -648,9 +648,12 @@ bool insert( T * const LVARRAY_RESTRICT ptr,
     return false;
   }
 
+  // The callback may reallocate the array the value comes from, for example another set of an ArrayOfSets.
+  T newValue( value );
+
   // Otherwise call the incrementSize callback, get the new pointer, insert and call the insert callback.
   T * const newPtr = callBacks.incrementSize( ptr, 1 );
-  arrayManipulation::emplace( newPtr, size, insertPos, value );
+  arrayManipulation::emplace( newPtr, size, insertPos, std::move( newValue ) );
   callBacks.insert( insertPos );
   return true;
 }
-- 
2.43.0


From 20313662057cf8e5ab075973cbd59755db34eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 59/63] fix: inserting an entry of a CRSMatrix into it reads an
 entry that has been moved

---
 src/CRSMatrix.hpp     | 5 ++++-
 src/CRSMatrixView.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 782b4a1..2c2ecdf 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -383,7 +383,10 @@ public:
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( row );
     SPARSITYPATTERN_COLUMN_CHECK( col );
-    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+
+    // The entry may be an entry of this matrix so it is copied before the entries are moved.
+    T const newEntry( entry );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &newEntry ) );
   }
 
   /**
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index d7c7337..beae65e 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -279,7 +279,10 @@ public:
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( row );
     SPARSITYPATTERN_COLUMN_CHECK( col );
-    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+
+    // The entry may be an entry of this row so it is copied before the entries are shifted.
+    T const newEntry( entry );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &newEntry ) );
   }
 
   /**
-- 
2.43.0


From a7f02de18da44d789e748942b068efb78a665dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:07 +0000
Subject: [PATCH 60/63] fix: resizeArray of an ArrayOfArrays given one of its
 own values reads a value that has been moved

---
 src/ArrayOfArrays.hpp | 49 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 9b5c913..4947025 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -420,6 +420,15 @@ public:
 
   using ParentClass::eraseFromArray;
 
+  /**
+   * @brief Set the number of values in an array.
+   * @param i the array to resize.
+   * @param newSize the value to set the size of the array to.
+   * @note Any new values are value initialized.
+   */
+  void resizeArray( INDEX_TYPE const i, INDEX_TYPE const newSize )
+  { resizeArrayImpl( i, newSize ); }
+
   /**
    * @brief Set the number of values in an array.
    * @tparam ARGS variadic template parameter of the types used to initialize any new values with.
@@ -430,18 +439,9 @@ public:
   template< class ... ARGS >
   void resizeArray( INDEX_TYPE const i, INDEX_TYPE const newSize, ARGS && ... args )
   {
-    ARRAYOFARRAYS_CHECK_BOUNDS( i );
-    LVARRAY_ASSERT( arrayManipulation::isPositive( newSize ) );
-
-    if( newSize > capacityOfArray( i ) )
-    {
-      setCapacityOfArray( i, newSize );
-    }
-
-    INDEX_TYPE const prevSize = sizeOfArray( i );
-    T * const values = (*this)[i];
-    arrayManipulation::resize( values, prevSize, newSize, std::forward< ARGS >( args )... );
-    this->m_sizes[ i ] = newSize;
+    // The arguments may refer to values of this so the value is constructed before they are moved.
+    T const value( std::forward< ARGS >( args )... );
+    resizeArrayImpl( i, newSize, value );
   }
 
   /**
@@ -501,6 +501,31 @@ private:
       setCapacityOfArray( i, 2 * newArraySize );
     }
   }
+
+  /**
+   * @brief Set the number of values in an array.
+   * @tparam ARGS variadic template parameter of the types used to initialize any new values with.
+   * @param i the array to resize.
+   * @param newSize the value to set the size of the array to.
+   * @param args variadic parameter pack of the arguments used to initialize any new values with, these can't refer to
+   *   values of this.
+   */
+  template< class ... ARGS >
+  void resizeArrayImpl( INDEX_TYPE const i, INDEX_TYPE const newSize, ARGS && ... args )
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( i );
+    LVARRAY_ASSERT( arrayManipulation::isPositive( newSize ) );
+
+    if( newSize > capacityOfArray( i ) )
+    {
+      setCapacityOfArray( i, newSize );
+    }
+
+    INDEX_TYPE const prevSize = sizeOfArray( i );
+    T * const values = (*this)[i];
+    arrayManipulation::resize( values, prevSize, newSize, std::forward< ARGS >( args )... );
+    this->m_sizes[ i ] = newSize;
+  }
 };
 
 } /* namespace LvArray */
-- 
2.43.0


From 821bab3546ca506c1625a965d2b7baf39869a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 61/63] fix: zeroing a CRSMatrix whose entries have more bytes
 than the index type can hold

---
 src/CRSMatrixView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index beae65e..52c586e 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -404,7 +404,7 @@ public:
       ParentClass::move( m_entries.getPreviousSpace(), false );
       m_entries.move( m_entries.getPreviousSpace(), true );
 
-      INDEX_TYPE const numBytes = m_entries.capacity() * sizeof( T );
+      std::size_t const numBytes = m_entries.capacity() * sizeof( T );
       umpireInterface::memset( m_entries.data(), 0, numBytes );
     }
   }
-- 
2.43.0


From b08a6c7993525efcfa2ba79f31bb11bdadb42add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:38 +0000
Subject: [PATCH 62/63] fix: containers that grow near the end of their index
 type compute negative capacities

---
 src/ArrayOfArrays.hpp     |  2 +-
 src/ArrayOfArraysView.hpp | 19 ++++++++++++++++++-
 src/ArrayOfSets.hpp       |  2 +-
 src/CRSMatrix.hpp         |  2 +-
 src/SparsityPattern.hpp   |  2 +-
 5 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 4947025..8cd6c89 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -498,7 +498,7 @@ private:
     INDEX_TYPE const newArraySize = sizeOfArray( i ) + increase;
     if( newArraySize > capacityOfArray( i ))
     {
-      setCapacityOfArray( i, 2 * newArraySize );
+      setCapacityOfArray( i, this->getGrownCapacity( i, newArraySize ) );
     }
   }
 
diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 5cd3592..0d72fb4 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -24,6 +24,7 @@
 
 // System includes
 #include <cstring>
+#include <limits>
 
 #ifdef LVARRAY_BOUNDS_CHECK
 
@@ -890,7 +891,8 @@ protected:
         [this, i, maxOffset, capacityIncrease]( auto & buffer )
       {
         // Increase the size of the buffer.
-        reserveBuffer( buffer, maxOffset + capacityIncrease, 2 * ( maxOffset + capacityIncrease ) );
+        INDEX_TYPE const newMaxOffset = maxOffset + capacityIncrease;
+        reserveBuffer( buffer, newMaxOffset, newMaxOffset > maxIndex - newMaxOffset ? maxIndex : 2 * newMaxOffset );
 
         // Shift up the values.
         for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )
@@ -942,6 +944,18 @@ protected:
     m_offsets.registerTouch( MemorySpace::host );
   }
 
+  /**
+   * @return The capacity to give to array @p i when it has to grow to @p newSize values, this is twice the size
+   *   unless the offsets would then exceed what INDEX_TYPE can hold.
+   * @param i the array that has to grow.
+   * @param newSize the number of values the array has to hold.
+   */
+  INDEX_TYPE_NC getGrownCapacity( INDEX_TYPE const i, INDEX_TYPE const newSize ) const
+  {
+    INDEX_TYPE const available = maxIndex - m_offsets[ m_numArrays ] + capacityOfArray( i );
+    return newSize > available - newSize ? math::max( newSize, available ) : 2 * newSize;
+  }
+
   /**
    * @tparam U They type of the owning object.
    * @brief Set the name to be displayed whenever the underlying Buffer's user call back is called.
@@ -973,6 +987,9 @@ protected:
 
 private:
 
+  /// The largest offset and capacity that can be represented.
+  static constexpr INDEX_TYPE_NC maxIndex = std::numeric_limits< INDEX_TYPE_NC >::max();
+
   /**
    * @tparam BUFFER the type of the buffer.
    * @brief Reserve space in a buffer that holds the values of the arrays.
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index 3d69c05..e752847 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -518,7 +518,7 @@ public:
       INDEX_TYPE const newNNZ = m_aos.sizeOfSet( m_i ) + nToAdd;
       if( newNNZ > m_aos.capacityOfSet( m_i ) )
       {
-        m_aos.setCapacityOfSet( m_i, 2 * newNNZ );
+        m_aos.setCapacityOfSet( m_i, m_aos.getGrownCapacity( m_i, newNNZ ) );
       }
 
       return m_aos.getSetValues( m_i );
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 2c2ecdf..900168e 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -519,7 +519,7 @@ private:
    * @note This method over-allocates so that subsequent calls to insert don't have to reallocate.
    */
   void dynamicallyGrowRow( INDEX_TYPE const row, INDEX_TYPE const newNNZ )
-  { setRowCapacity( row, 2 * newNNZ ); }
+  { setRowCapacity( row, this->getGrownCapacity( row, newNNZ ) ); }
 
   /**
    * @class CallBacks
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 6255475..74ad059 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -404,7 +404,7 @@ private:
    */
   inline
   void dynamicallyGrowRow( INDEX_TYPE const row, INDEX_TYPE const newNNZ )
-  { setRowCapacity( row, newNNZ * 2 ); }
+  { setRowCapacity( row, this->getGrownCapacity( row, newNNZ ) ); }
 
   /**
    * @class CallBacks
-- 
2.43.0


From 2c8f4d1b14f28ff77c1041843073c0561ad07f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 63/63] fix: capacity() of a container is wrong or reports an
 error when the allocation exceeds the index type

---
 src/ArrayOfArraysView.hpp | 4 +++-
 src/ArrayView.hpp         | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 0d72fb4..f5d5c79 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -371,7 +371,9 @@ public:
   INDEX_TYPE_NC capacity() const
   {
     // There is one more offset than there are arrays, unless this has been moved from.
-    return m_offsets.capacity() == 0 ? 0 : math::min( m_sizes.capacity(), m_offsets.capacity() - 1 );
+    if( m_offsets.capacity() == 0 ) return 0;
+    std::ptrdiff_t const numArrays = math::min( m_sizes.capacity(), m_offsets.capacity() - 1 );
+    return static_cast< INDEX_TYPE >( math::min( numArrays, static_cast< std::ptrdiff_t >( maxIndex ) ) );
   }
 
   /**
diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index b77665f..2205563 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -431,10 +431,14 @@ public:
 
   /**
    * @return Return the maximum number of values the Array can hold without reallocation.
+   * @note The allocation may be larger than what INDEX_TYPE can represent.
    */
   LVARRAY_HOST_DEVICE constexpr
   INDEX_TYPE capacity() const
-  { return LvArray::integerConversion< INDEX_TYPE >( m_dataBuffer.capacity() ); }
+  {
+    std::ptrdiff_t const maxSize = NumericLimits< INDEX_TYPE >::max;
+    return LvArray::integerConversion< INDEX_TYPE >( m_dataBuffer.capacity() < maxSize ? m_dataBuffer.capacity() : maxSize );
+  }
 
   /**
    * @return Return the default resize dimension.
-- 
2.43.0

