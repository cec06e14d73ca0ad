From 217aecd0305639e64a0514cf73f3ea21316f2238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 01/18] fix: queue::unsynchronized_push for fixed-sized queues

It dereferenced the tagged handle as if it were a pointer and therefore did not compile for
queue<T, fixed_sized<true>> and queue<T, capacity<N>>.
---
 include/boost/lockfree/queue.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 19c950d..7f009b9 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -382,16 +382,19 @@ public:
             return false;
 
         for ( ;; ) {
-            tagged_node_handle tail     = tail_.load( memory_order_relaxed );
-            tagged_node_handle next     = tail->next.load( memory_order_relaxed );
-            node*              next_ptr = next.get_ptr();
+            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
+            node*              tail_node = pool.get_pointer( tail );
+            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
+            node*              next_ptr  = pool.get_pointer( next );
 
             if ( next_ptr == 0 ) {
-                tail->next.store( tagged_node_handle( n, next.get_next_tag() ), memory_order_relaxed );
-                tail_.store( tagged_node_handle( n, tail.get_next_tag() ), memory_order_relaxed );
+                tail_node->next.store( tagged_node_handle( pool.get_handle( n ), next.get_next_tag() ),
+                                       memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( n ), tail.get_next_tag() ), memory_order_relaxed );
                 return true;
             } else
-                tail_.store( tagged_node_handle( next_ptr, tail.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),
+                             memory_order_relaxed );
         }
     }
 
-- 
2.43.0


From 97706f6d38b0ab2cdeb57cb28f2a617fbc936012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 02/18] fix: ranged push for fixed-sized stacks

prepare_node_list stored raw pointers into the node handles and therefore did not compile for
stack<T, fixed_sized<true>> and stack<T, capacity<N>>, whose handles are 16-bit indices.
---
 include/boost/lockfree/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index f730020..7dc2193 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -292,7 +292,7 @@ private:
         }
 
         node* new_top_node = end_node;
-        end_node->next     = NULL;
+        end_node->next     = pool.null_handle();
 
         BOOST_TRY
         {
@@ -301,14 +301,14 @@ private:
                 node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                 if ( newnode == NULL )
                     break;
-                newnode->next = new_top_node;
+                newnode->next = pool.get_handle( new_top_node );
                 new_top_node  = newnode;
             }
         }
         BOOST_CATCH( ... )
         {
             for ( node* current_node = new_top_node; current_node != NULL; ) {
-                node* next = current_node->next;
+                node* next = pool.get_pointer( current_node->next );
                 pool.template destruct< Threadsafe >( current_node );
                 current_node = next;
             }
-- 
2.43.0


From ca4cfa9be9b8717a2ac9a3896471a7467f7cddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 03/18] fix: ranged push of an empty range to a stack

It dereferenced begin and then ran past the end of the range.
---
 include/boost/lockfree/stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 7dc2193..96ad03e 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -284,6 +284,11 @@ private:
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
+        if ( begin == end ) {
+            ret = begin;
+            return make_tuple< node*, node* >( NULL, NULL );
+        }
+
         ConstIterator it       = begin;
         node*         end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
         if ( end_node == NULL ) {
-- 
2.43.0


From a3e03cd979a32b51e0e6185e9a0849efbd63af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:13 +0000
Subject: [PATCH 04/18] fix: return the node to the freelist when constructing
 an element throws

A node taken from the freelist was lost (leaked, or gone from a fixed-size
pool) when the copy constructor of the element threw.
---
 include/boost/lockfree/detail/freelist.hpp | 76 +++++++++++++++++++---
 1 file changed, 67 insertions(+), 9 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 0ce72f6..3ac48a3 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -78,8 +79,18 @@ public:
     T* construct( void )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T();
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T();
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -87,8 +98,18 @@ public:
     T* construct( ArgumentType const& arg )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -96,8 +117,18 @@ public:
     T* construct( ArgumentType1 const& arg1, ArgumentType2 const& arg2 )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg1, arg2 );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg1, arg2 );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -443,7 +474,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T();
+        BOOST_TRY
+        {
+            new ( node ) T();
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -455,7 +495,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg );
+        BOOST_TRY
+        {
+            new ( node ) T( arg );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -467,7 +516,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg1, arg2 );
+        BOOST_TRY
+        {
+            new ( node ) T( arg1, arg2 );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
-- 
2.43.0


From 3b420f54db71d116cf67357f6b17ace00adc3a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 05/18] fix: free the nodes already allocated when the freelist
 constructor throws

When an allocation failed part-way through preallocating the nodes, the
nodes allocated before it leaked.
---
 include/boost/lockfree/detail/freelist.hpp | 26 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 3ac48a3..713e9d1 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -54,15 +54,24 @@ public:
         Alloc( alloc ),
         pool_( tagged_node_ptr( NULL ) )
     {
-        for ( std::size_t i = 0; i != n; ++i ) {
-            T* node = Alloc::allocate( 1 );
-            std::memset( (void*)node, 0, sizeof( T ) );
+        BOOST_TRY
+        {
+            for ( std::size_t i = 0; i != n; ++i ) {
+                T* node = Alloc::allocate( 1 );
+                std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
-            destruct< false >( node );
+                destruct< false >( node );
 #else
-            deallocate< false >( node );
+                deallocate< false >( node );
 #endif
+            }
         }
+        BOOST_CATCH( ... )
+        {
+            release_nodes(); // the destructor does not run
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
     }
 
     template < bool ThreadSafe >
@@ -148,6 +157,12 @@ public:
     }
 
     ~freelist_stack( void )
+    {
+        release_nodes();
+    }
+
+private:
+    void release_nodes( void )
     {
         tagged_node_ptr current = pool_.load();
 
@@ -159,6 +174,7 @@ public:
         }
     }
 
+public:
     bool is_lock_free( void ) const
     {
         return pool_.is_lock_free();
-- 
2.43.0


From 45061d7d4e10e4007c7bfb73abe7e319ad3c40d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 06/18] fix: align over-aligned nodes in compile-time sized
 freelists

The node storage of stack<T, capacity<N>> was only aligned to cache lines,
even if T requires a stricter alignment.
---
 include/boost/lockfree/detail/freelist.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 713e9d1..2e13914 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -19,6 +19,7 @@
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/type_traits/alignment_of.hpp>
 
 #include <boost/align/align_up.hpp>
 #include <boost/align/aligned_allocator_adaptor.hpp>
@@ -383,7 +384,12 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     // array-based freelists only support a 16bit address space.
     BOOST_STATIC_ASSERT( size < 65536 );
 
-    boost::array< char, size * sizeof( T ) + 64 > data;
+    // nodes may be aligned more strictly than cache lines
+    static const std::size_t node_alignment = boost::alignment_of< T >::value > BOOST_LOCKFREE_CACHELINE_BYTES
+                                                  ? boost::alignment_of< T >::value
+                                                  : BOOST_LOCKFREE_CACHELINE_BYTES;
+
+    boost::array< char, size * sizeof( T ) + node_alignment > data;
 
     // unused ... only for API purposes
     template < typename Allocator >
@@ -395,7 +401,7 @@ struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) compiletime_sized_freel
     T* nodes( void ) const
     {
         char* data_pointer = const_cast< char* >( data.data() );
-        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, BOOST_LOCKFREE_CACHELINE_BYTES ) );
+        return reinterpret_cast< T* >( boost::alignment::align_up( data_pointer, std::size_t( node_alignment ) ) );
     }
 
     std::size_t node_count( void ) const
-- 
2.43.0


From 0d4998d69eb4e0607f6b7246972da9715cc51227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 07/18] fix: destroy the copied elements when a wrapping
 spsc_queue push throws

If the copy of an element of the second section of a ranged push threw, the
elements already copied to the end of the ringbuffer were never destroyed.
---
 include/boost/lockfree/spsc_queue.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 30a1e00..cd6b3fe 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -17,6 +17,7 @@
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/utility.hpp>
@@ -146,7 +147,18 @@ protected:
             const ConstIterator midpoint = boost::next( begin, count0 );
 
             std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );
-            std::uninitialized_copy( midpoint, last, internal_buffer );
+            BOOST_TRY
+            {
+                std::uninitialized_copy( midpoint, last, internal_buffer );
+            }
+            BOOST_CATCH( ... )
+            {
+                /* destroy the objects of the first section */
+                detail::consume_noop noop;
+                run_functor_and_delete( internal_buffer + write_index, internal_buffer + max_size, noop );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             new_write_index -= max_size;
         } else {
             std::uninitialized_copy( begin, last, internal_buffer + write_index );
-- 
2.43.0


From 798cd6c1dd23b0f322e045fde757baf9611f6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 08/18] fix: refuse a size of SIZE_MAX instead of wrapping
 around to zero

queue and spsc_queue allocate one more node or element than requested; the
addition overflowed and fixed-sized queues and ringbuffers without storage
were written to.
---
 include/boost/lockfree/queue.hpp      | 17 ++++++++++++++---
 include/boost/lockfree/spsc_queue.hpp | 16 +++++++++++++---
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 7f009b9..c5278bc 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -11,10 +11,14 @@
 #ifndef BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 #define BOOST_LOCKFREE_FIFO_HPP_INCLUDED
 
+#include <limits>
+#include <stdexcept>
+
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY & BOOST_ALIGNMENT
 #include <boost/core/allocator_access.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/throw_exception.hpp>
 #include <boost/type_traits/has_trivial_assign.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 
@@ -139,6 +143,13 @@ private:
     typedef typename pool_t::tagged_node_handle                                    tagged_node_handle;
     typedef typename detail::select_tagged_handle< node, node_based >::handle_type handle_type;
 
+    static std::size_t node_count( std::size_t n )
+    {
+        if ( n == ( std::numeric_limits< std::size_t >::max )() )
+            boost::throw_exception( std::runtime_error( "boost.lockfree: queue size is too large" ) );
+        return n + 1; // the queue uses one dummy node
+    }
+
     void initialize( void )
     {
         node*              n = pool.template construct< true, false >( pool.null_handle() );
@@ -229,7 +240,7 @@ public:
     explicit queue( size_type n ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( node_allocator(), n + 1 )
+        pool( node_allocator(), node_count( n ) )
     {
         // Don't use BOOST_STATIC_ASSERT() here since it will be evaluated when compiling
         // this function and this function may be compiled even when it isn't being used.
@@ -247,7 +258,7 @@ public:
     queue( size_type n, typename boost::allocator_rebind< node_allocator, U >::type const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, node_count( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
@@ -262,7 +273,7 @@ public:
     queue( size_type n, allocator const& alloc ) :
         head_( tagged_node_handle( 0, 0 ) ),
         tail_( tagged_node_handle( 0, 0 ) ),
-        pool( alloc, n + 1 )
+        pool( alloc, node_count( n ) )
     {
         BOOST_STATIC_ASSERT( !has_capacity );
         initialize();
diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index cd6b3fe..3bcedab 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -11,7 +11,9 @@
 #define BOOST_LOCKFREE_SPSC_QUEUE_HPP_INCLUDED
 
 #include <algorithm>
+#include <limits>
 #include <memory>
+#include <stdexcept>
 
 #include <boost/aligned_storage.hpp>
 #include <boost/assert.hpp>
@@ -20,6 +22,7 @@
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
+#include <boost/throw_exception.hpp>
 #include <boost/utility.hpp>
 #include <boost/utility/enable_if.hpp>
 
@@ -545,6 +548,13 @@ class runtime_sized_ringbuffer : public ringbuffer_base< T >, private Alloc
 #endif
     pointer array_;
 
+    static size_type ring_size( size_type max_elements )
+    {
+        if ( max_elements == ( std::numeric_limits< size_type >::max )() )
+            boost::throw_exception( std::runtime_error( "boost.lockfree: spsc_queue size is too large" ) );
+        return max_elements + 1; // one element is never used
+    }
+
 protected:
     size_type max_number_of_elements() const
     {
@@ -553,7 +563,7 @@ protected:
 
 public:
     explicit runtime_sized_ringbuffer( size_type max_elements ) :
-        max_elements_( max_elements + 1 )
+        max_elements_( ring_size( max_elements ) )
     {
 #ifdef BOOST_NO_CXX11_ALLOCATOR
         array_ = Alloc::allocate( max_elements_ );
@@ -566,7 +576,7 @@ public:
     template < typename U >
     runtime_sized_ringbuffer( typename boost::allocator_rebind< Alloc, U >::type const& alloc, size_type max_elements ) :
         Alloc( alloc ),
-        max_elements_( max_elements + 1 )
+        max_elements_( ring_size( max_elements ) )
     {
 #ifdef BOOST_NO_CXX11_ALLOCATOR
         array_ = Alloc::allocate( max_elements_ );
@@ -578,7 +588,7 @@ public:
 
     runtime_sized_ringbuffer( Alloc const& alloc, size_type max_elements ) :
         Alloc( alloc ),
-        max_elements_( max_elements + 1 )
+        max_elements_( ring_size( max_elements ) )
     {
 #ifdef BOOST_NO_CXX11_ALLOCATOR
         array_ = Alloc::allocate( max_elements_ );
-- 
2.43.0


From 0404fe72c2cdb91f06cfd688e9c47049b07661ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 09/18] fix: reject a queue capacity of SIZE_MAX at compile
 time

Adding the dummy node overflowed, the queue silently got storage for no node
at all and crashed when it was constructed.
---
 include/boost/lockfree/queue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index c5278bc..971d1d2 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -137,6 +137,9 @@ private:
         T                            data;
     };
 
+    // adding the dummy node must not overflow
+    BOOST_STATIC_ASSERT( capacity != 0 );
+
     typedef typename detail::extract_allocator< bound_args, node >::type node_allocator;
     typedef
         typename detail::select_freelist< node, node_allocator, compile_time_sized, fixed_sized, capacity >::type pool_t;
-- 
2.43.0


From c9f500481c24d1c9d294f7cdb413de698fbc99a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 10/18] fix: reject spsc_queue capacities whose storage size
 overflows

The element count and the size of the storage were computed modulo SIZE_MAX+1,
so that a huge capacity silently became a ringbuffer without enough storage.
---
 include/boost/lockfree/spsc_queue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 3bcedab..a609212 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -438,6 +438,9 @@ class compile_time_sized_ringbuffer : public ringbuffer_base< T >
     typedef std::size_t      size_type;
     static const std::size_t max_size = MaxSize + 1;
 
+    // neither the number of elements nor the size of the storage may overflow
+    BOOST_STATIC_ASSERT( ( MaxSize < static_cast< std::size_t >( -1 ) / sizeof( T ) ) );
+
     typedef
         typename boost::aligned_storage< max_size * sizeof( T ), boost::alignment_of< T >::value >::type storage_type;
 
-- 
2.43.0


From 19342db0e9dfe78d13a29daa437196ecb6f7e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 11/18] fix: support allocators with fancy pointers in
 node-based containers

The documentation promises compatibility with Boost.Interprocess allocators,
but queue and stack only compiled with them when they were fixed-sized.
---
 include/boost/lockfree/detail/freelist.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 2e13914..7a0bb6c 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,7 +15,9 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/allocator_access.hpp>
 #include <boost/core/no_exceptions_support.hpp>
+#include <boost/core/pointer_traits.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -44,7 +46,8 @@ class freelist_stack : Alloc
         tagged_ptr< freelist_node > next;
     };
 
-    typedef tagged_ptr< freelist_node > tagged_node_ptr;
+    typedef tagged_ptr< freelist_node >                     tagged_node_ptr;
+    typedef typename boost::allocator_pointer< Alloc >::type node_pointer; // not necessarily a raw pointer
 
 public:
     typedef T*              index_t;
@@ -58,7 +61,7 @@ public:
         BOOST_TRY
         {
             for ( std::size_t i = 0; i != n; ++i ) {
-                T* node = Alloc::allocate( 1 );
+                T* node = boost::to_address( Alloc::allocate( 1 ) );
                 std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
                 destruct< false >( node );
@@ -79,7 +82,7 @@ public:
     void reserve( std::size_t count )
     {
         for ( std::size_t i = 0; i != count; ++i ) {
-            T* node = Alloc::allocate( 1 );
+            T* node = boost::to_address( Alloc::allocate( 1 ) );
             std::memset( (void*)node, 0, sizeof( T ) );
             deallocate< ThreadSafe >( node );
         }
@@ -171,7 +174,7 @@ private:
             freelist_node* current_ptr = current.get_ptr();
             if ( current_ptr )
                 current = current_ptr->next;
-            Alloc::deallocate( (T*)current_ptr, 1 );
+            Alloc::deallocate( boost::pointer_traits< node_pointer >::pointer_to( *(T*)current_ptr ), 1 );
         }
     }
 
@@ -225,7 +228,7 @@ private:
         for ( ;; ) {
             if ( !old_pool.get_ptr() ) {
                 if ( !Bounded ) {
-                    T* ptr = Alloc::allocate( 1 );
+                    T* ptr = boost::to_address( Alloc::allocate( 1 ) );
                     std::memset( (void*)ptr, 0, sizeof( T ) );
                     return ptr;
                 } else
@@ -249,7 +252,7 @@ private:
 
         if ( !old_pool.get_ptr() ) {
             if ( !Bounded ) {
-                T* ptr = Alloc::allocate( 1 );
+                T* ptr = boost::to_address( Alloc::allocate( 1 ) );
                 std::memset( (void*)ptr, 0, sizeof( T ) );
                 return ptr;
             } else
-- 
2.43.0


From afa7b178d73182004c866828f30d128da8b2260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 12/18] fix: do not drop the third configuration option of
 queue and stack

The signatures had two parameters for three options: with allocator,
fixed_sized and capacity given in an order with capacity last, the capacity
was silently ignored.
---
 include/boost/lockfree/queue.hpp | 4 +++-
 include/boost/lockfree/stack.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 971d1d2..208612c 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -51,7 +51,9 @@
 namespace boost { namespace lockfree {
 namespace detail {
 
-typedef parameter::parameters< boost::parameter::optional< tag::allocator >, boost::parameter::optional< tag::capacity > >
+typedef parameter::parameters< boost::parameter::optional< tag::allocator >,
+                               boost::parameter::optional< tag::capacity >,
+                               boost::parameter::optional< tag::fixed_sized > >
     queue_signature;
 
 } /* namespace detail */
diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 96ad03e..c480b5b 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -31,7 +31,9 @@
 namespace boost { namespace lockfree {
 namespace detail {
 
-typedef parameter::parameters< boost::parameter::optional< tag::allocator >, boost::parameter::optional< tag::capacity > >
+typedef parameter::parameters< boost::parameter::optional< tag::allocator >,
+                               boost::parameter::optional< tag::capacity >,
+                               boost::parameter::optional< tag::fixed_sized > >
     stack_signature;
 
 } // namespace detail
-- 
2.43.0


From 9d6cbf8977aef6f6f218b789f61f037b02ff3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 13/18] fix: queue accepts elements aligned more strictly than
 cache lines on every compiler

---
 include/boost/lockfree/queue.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 208612c..598b197 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -114,7 +114,7 @@ private:
     static const bool node_based         = !( has_capacity || fixed_sized );
     static const bool compile_time_sized = has_capacity;
 
-    struct BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) node
+    struct node
     {
         typedef typename detail::select_tagged_handle< node, node_based >::tagged_handle_type tagged_node_handle;
         typedef typename detail::select_tagged_handle< node, node_based >::handle_type        handle_type;
@@ -135,8 +135,9 @@ private:
         node( void )
         {}
 
-        atomic< tagged_node_handle > next;
-        T                            data;
+        // aligns the node to cache lines, or more strictly if T requires it
+        BOOST_ALIGNMENT( BOOST_LOCKFREE_CACHELINE_BYTES ) atomic< tagged_node_handle > next;
+        T data;
     };
 
     // adding the dummy node must not overflow
-- 
2.43.0


From 5cc5e9f2e86dadcf4f87523646072fc6871c2c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 14/18] fix: spsc_queue pushes single elements whose class has
 its own operator new

---
 include/boost/lockfree/spsc_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index a609212..e033e28 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -113,7 +113,7 @@ protected:
         if ( next == read_index_.load( memory_order_acquire ) )
             return false;                    /* ringbuffer is full */
 
-        new ( buffer + write_index ) T( t ); // copy-construct
+        ::new ( static_cast< void* >( buffer + write_index ) ) T( t ); // copy-construct
 
         write_index_.store( next, memory_order_release );
 
-- 
2.43.0


From 616f56b68f5791c53f6b868e920b394cad74effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 15/18] fix: run-time sized spsc_queue of elements that
 overload unary operator&

---
 include/boost/lockfree/spsc_queue.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index e033e28..79de557 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -18,6 +18,7 @@
 #include <boost/aligned_storage.hpp>
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
+#include <boost/core/addressof.hpp>
 #include <boost/core/allocator_access.hpp>
 #include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
@@ -617,36 +618,36 @@ public:
 
     bool push( T const& t )
     {
-        return ringbuffer_base< T >::push( t, &*array_, max_elements_ );
+        return ringbuffer_base< T >::push( t, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     bool consume_one( Functor& f )
     {
-        return ringbuffer_base< T >::consume_one( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_one( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     bool consume_one( Functor const& f )
     {
-        return ringbuffer_base< T >::consume_one( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_one( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     size_type consume_all( Functor& f )
     {
-        return ringbuffer_base< T >::consume_all( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_all( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename Functor >
     size_type consume_all( Functor const& f )
     {
-        return ringbuffer_base< T >::consume_all( f, &*array_, max_elements_ );
+        return ringbuffer_base< T >::consume_all( f, boost::addressof( *array_ ), max_elements_ );
     }
 
     size_type push( T const* t, size_type size )
     {
-        return ringbuffer_base< T >::push( t, size, &*array_, max_elements_ );
+        return ringbuffer_base< T >::push( t, size, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < size_type size >
@@ -658,28 +659,28 @@ public:
     template < typename ConstIterator >
     ConstIterator push( ConstIterator begin, ConstIterator end )
     {
-        return ringbuffer_base< T >::push( begin, end, &*array_, max_elements_ );
+        return ringbuffer_base< T >::push( begin, end, boost::addressof( *array_ ), max_elements_ );
     }
 
     size_type pop( T* ret, size_type size )
     {
-        return ringbuffer_base< T >::pop( ret, size, &*array_, max_elements_ );
+        return ringbuffer_base< T >::pop( ret, size, boost::addressof( *array_ ), max_elements_ );
     }
 
     template < typename OutputIterator >
     size_type pop_to_output_iterator( OutputIterator it )
     {
-        return ringbuffer_base< T >::pop_to_output_iterator( it, &*array_, max_elements_ );
+        return ringbuffer_base< T >::pop_to_output_iterator( it, boost::addressof( *array_ ), max_elements_ );
     }
 
     const T& front( void ) const
     {
-        return ringbuffer_base< T >::front( &*array_ );
+        return ringbuffer_base< T >::front( boost::addressof( *array_ ) );
     }
 
     T& front( void )
     {
-        return ringbuffer_base< T >::front( &*array_ );
+        return ringbuffer_base< T >::front( boost::addressof( *array_ ) );
     }
 };
 
-- 
2.43.0


From 3d4650d3d14bc46423edcd25223197c0bd3136ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:22 +0000
Subject: [PATCH 16/18] fix: align the storage of compile-time sized
 spsc_queues for every extended alignment

---
 include/boost/lockfree/spsc_queue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 79de557..2760b16 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -27,6 +27,7 @@
 #include <boost/utility.hpp>
 #include <boost/utility/enable_if.hpp>
 
+#include <boost/type_traits/alignment_of.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 #include <boost/type_traits/is_convertible.hpp>
 
@@ -445,7 +446,8 @@ class compile_time_sized_ringbuffer : public ringbuffer_base< T >
     typedef
         typename boost::aligned_storage< max_size * sizeof( T ), boost::alignment_of< T >::value >::type storage_type;
 
-    storage_type storage_;
+    // aligned_storage does not support every extended alignment
+    BOOST_ALIGNMENT( boost::alignment_of< T >::value ) storage_type storage_;
 
     T* data()
     {
-- 
2.43.0


From 69d2ec5dd61f6770b2ba548ca81534a64d82d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 17/18] fix: do not access free nodes of fixed-size freelists
 through misaligned tagged indices

---
 include/boost/lockfree/detail/freelist.hpp | 23 +++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 7a0bb6c..29d4370 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -453,17 +453,18 @@ struct runtime_sized_freelist_storage :
 template < typename T, typename NodeStorage = runtime_sized_freelist_storage< T > >
 class fixed_size_freelist : NodeStorage
 {
+    // free nodes are linked by index: nodes are not necessarily aligned for a tagged_index
     struct freelist_node
     {
-        tagged_index next;
+        tagged_index::index_t next;
     };
 
     void initialize( void )
     {
         T* nodes = NodeStorage::nodes();
         for ( std::size_t i = 0; i != NodeStorage::node_count(); ++i ) {
-            tagged_index* next_index = reinterpret_cast< tagged_index* >( nodes + i );
-            next_index->set_index( null_handle() );
+            freelist_node* node = reinterpret_cast< freelist_node* >( nodes + i );
+            node->next          = null_handle();
 
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
             destruct< false >( nodes + i );
@@ -632,10 +633,10 @@ private:
             if ( index == null_handle() )
                 return index;
 
-            T*            old_node   = NodeStorage::nodes() + index;
-            tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );
+            T*             old_node  = NodeStorage::nodes() + index;
+            freelist_node* free_node = reinterpret_cast< freelist_node* >( old_node );
 
-            tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );
+            tagged_index new_pool( free_node->next, old_pool.get_next_tag() );
 
             if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                 return old_pool.get_index();
@@ -650,10 +651,10 @@ private:
         if ( index == null_handle() )
             return index;
 
-        T*            old_node   = NodeStorage::nodes() + index;
-        tagged_index* next_index = reinterpret_cast< tagged_index* >( old_node );
+        T*             old_node  = NodeStorage::nodes() + index;
+        freelist_node* free_node = reinterpret_cast< freelist_node* >( old_node );
 
-        tagged_index new_pool( next_index->get_index(), old_pool.get_next_tag() );
+        tagged_index new_pool( free_node->next, old_pool.get_next_tag() );
 
         pool_.store( new_pool, memory_order_relaxed );
         return old_pool.get_index();
@@ -675,7 +676,7 @@ private:
 
         for ( ;; ) {
             tagged_index new_pool( index, old_pool.get_tag() );
-            new_pool_node->next.set_index( old_pool.get_index() );
+            new_pool_node->next = old_pool.get_index();
 
             if ( pool_.compare_exchange_weak( old_pool, new_pool ) )
                 return;
@@ -688,7 +689,7 @@ private:
         tagged_index   old_pool      = pool_.load( memory_order_consume );
 
         tagged_index new_pool( index, old_pool.get_tag() );
-        new_pool_node->next.set_index( old_pool.get_index() );
+        new_pool_node->next = old_pool.get_index();
 
         pool_.store( new_pool );
     }
-- 
2.43.0


From 1d27e58ec4a0e9ee4cabbbe507c462221e4a6c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:34 +0000
Subject: [PATCH 18/18] fix: compare tagged pointers with temporaries by
 pointer and tag

A temporary does not bind to a reference to volatile, so a comparison
such as 'a == atomic.load()' silently compared operator bool.
---
 include/boost/lockfree/detail/tagged_ptr_dcas.hpp     | 11 +++++++++++
 .../lockfree/detail/tagged_ptr_ptrcompression.hpp     | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/boost/lockfree/detail/tagged_ptr_dcas.hpp b/include/boost/lockfree/detail/tagged_ptr_dcas.hpp
index 237866e..afe9420 100644
--- a/include/boost/lockfree/detail/tagged_ptr_dcas.hpp
+++ b/include/boost/lockfree/detail/tagged_ptr_dcas.hpp
@@ -79,6 +79,17 @@ public:
     {
         return !operator==( p );
     }
+
+    // a temporary does not bind to a reference to volatile: without these, comparing with one compares operator bool
+    bool operator==( tagged_ptr const& p ) const
+    {
+        return operator==( static_cast< volatile tagged_ptr const& >( p ) );
+    }
+
+    bool operator!=( tagged_ptr const& p ) const
+    {
+        return !operator==( p );
+    }
     /* @} */
 
     /** pointer access */
diff --git a/include/boost/lockfree/detail/tagged_ptr_ptrcompression.hpp b/include/boost/lockfree/detail/tagged_ptr_ptrcompression.hpp
index c2cf6ff..d540779 100644
--- a/include/boost/lockfree/detail/tagged_ptr_ptrcompression.hpp
+++ b/include/boost/lockfree/detail/tagged_ptr_ptrcompression.hpp
@@ -104,6 +104,17 @@ public:
     {
         return !operator==( p );
     }
+
+    // a temporary does not bind to a reference to volatile: without these, comparing with one compares operator bool
+    bool operator==( tagged_ptr const& p ) const
+    {
+        return operator==( static_cast< volatile tagged_ptr const& >( p ) );
+    }
+
+    bool operator!=( tagged_ptr const& p ) const
+    {
+        return !operator==( p );
+    }
     /* @} */
 
     /** pointer access */
-- 
2.43.0

