// Minimal stand-in for the parts of RAJA that LvArray uses (RAJA itself is not installed here).
// Policies ending in "omp_parallel_*" and "verif_threads" run the body on std::threads when
// VERIF_RAJA_THREADS is defined and sequentially otherwise.
#pragma once
#include <algorithm>
#include <array>
#include <cstddef>
#include <functional>
#include <numeric>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef VERIF_RAJA_THREADS
#include <thread>
#endif
#include "camp/camp.hpp"
#include "camp/resource.hpp"
#include "RAJA/perms.hpp"

#define RAJA_HOST_DEVICE
#define RAJA_DEVICE
#define RAJA_INLINE inline
#define RAJA_UNUSED_VAR( ... ) ( void ) sizeof( __VA_ARGS__ )

#ifdef VERIF_SCHED
/// A point at which the scheduler of the harness may switch threads.
void verif_yield();
/// Run body( 0 ), ..., body( n - 1 ) on scheduled threads.
void verif_parallel( int n, std::function< void( int ) > const & body );
#else
inline void verif_yield() {}
#endif

namespace RAJA
{
using Index_type = std::ptrdiff_t;
using Real_type = double;

struct seq_exec {};
struct loop_exec {};
struct simd_exec {};
using serial = seq_exec;
struct omp_parallel_for_exec {};
struct omp_parallel_exec {};
struct omp_for_exec {};

struct seq_reduce {};
struct loop_reduce {};
struct omp_reduce {};
struct omp_reduce_ordered {};

struct seq_atomic {};
struct loop_atomic {};
struct builtin_atomic {};
struct omp_atomic {};
struct auto_atomic {};

// -------------------------------------------------------------------------------------------------
template< typename T, typename D = std::ptrdiff_t >
struct TypedRangeSegment
{
  using value_type = std::remove_const_t< T >;
  class iterator
  {
public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = std::remove_const_t< T >;
    using difference_type = std::ptrdiff_t;
    using pointer = T const *;
    using reference = T;
    iterator( T v ): m_v( v ) {}
    T operator*() const { return m_v; }
    iterator & operator++() { ++m_v; return *this; }
    bool operator!=( iterator const & o ) const { return m_v != o.m_v; }
    bool operator==( iterator const & o ) const { return m_v == o.m_v; }
private:
    value_type m_v;
  };
  TypedRangeSegment( T b, T e ): m_b( b ), m_e( e < b ? b : e ) {}
  iterator begin() const { return iterator( m_b ); }
  iterator end() const { return iterator( m_e ); }
  std::ptrdiff_t size() const { return static_cast< std::ptrdiff_t >( m_e - m_b ); }
  value_type m_b, m_e;
};
using RangeSegment = TypedRangeSegment< Index_type >;
template< typename B, typename E > TypedRangeSegment< std::common_type_t< B, E > > make_range( B b, E e )
{ return { b, e }; }

namespace verif_detail
{
template< typename POLICY > struct threaded : std::false_type {};
#ifdef VERIF_RAJA_THREADS
template<> struct threaded< omp_parallel_for_exec > : std::true_type {};
template<> struct threaded< omp_parallel_exec > : std::true_type {};
#endif
template< typename SEG, typename BODY > void run( std::false_type, SEG const & seg, BODY const & body )
{
  auto b = body; // RAJA takes a copy of the body, which is what triggers capture-by-copy semantics.
  for( auto it = seg.begin(); it != seg.end(); ++it ) { b( *it ); }
}
#ifdef VERIF_RAJA_THREADS
template< typename SEG, typename BODY > void run( std::true_type, SEG const & seg, BODY const & body )
{
  int const nThreads = 4;
#ifdef VERIF_SCHED
  verif_parallel( nThreads, [&]( int const t )
  {
    auto b = body;
    int k = 0;
    for( auto it = seg.begin(); it != seg.end(); ++it, ++k ) { if( k % nThreads == t ) { verif_yield(); b( *it ); } }
  } );
  return;
#endif
  std::vector< std::thread > threads;
  for( int t = 0; t < nThreads; ++t )
  {
    threads.emplace_back( [&, t]()
    {
      auto b = body;
      int k = 0;
      for( auto it = seg.begin(); it != seg.end(); ++it, ++k ) { if( k % nThreads == t ) b( *it ); }
    } );
  }
  for( auto & th : threads ) th.join();
}
#endif
}

/// Called before and after the body is captured, and before and after it runs; lets a managed buffer shim set its spaces.
template< typename POLICY > struct verif_forall_hook { static void before() {} static void after() {} static void enter() {} static void leave() {} };

template< typename POLICY, typename SEG, typename BODY >
inline void forall( SEG const & seg, BODY && body )
{
  verif_forall_hook< POLICY >::before();
  {
    auto captured = body;
    verif_forall_hook< POLICY >::after();
    struct Run { Run() { verif_forall_hook< POLICY >::enter(); } ~Run() { verif_forall_hook< POLICY >::leave(); } } const running;
    verif_detail::run( verif_detail::threaded< POLICY > {}, seg, captured );
  }
}

// -------------------------------------------------------------------------------------------------
namespace verif_detail
{
template< typename POLICY > struct is_real_atomic : std::true_type {};
template<> struct is_real_atomic< seq_atomic > : std::false_type {};
template<> struct is_real_atomic< loop_atomic > : std::false_type {};

#ifdef VERIF_SCHED
/// One scheduled thread runs at a time, so what does not yield is atomic.
extern int verif_noYield;
template< typename T, typename F > T update( std::true_type, T * acc, F && f )
{
  verif_yield();
  ++verif_noYield; T const o = *acc; *acc = f( o ); T const r = o; --verif_noYield;
  verif_yield();
  return r;
}
template< typename T, typename F > T update( std::false_type, T * acc, F && f )
{ verif_yield(); T const o = *acc; verif_yield(); *acc = f( o ); verif_yield(); return o; }
#else
template< typename T, typename F > T cas_update( T * acc, F && f )
{
  T oldValue;
  __atomic_load( acc, &oldValue, __ATOMIC_SEQ_CST );
  T newValue = f( oldValue );
  while( !__atomic_compare_exchange( acc, &oldValue, &newValue, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) )
  { newValue = f( oldValue ); }
  return oldValue;
}
template< typename T, typename F > T update( std::true_type, T * acc, F && f ) { return cas_update( acc, std::forward< F >( f ) ); }
template< typename T, typename F > T update( std::false_type, T * acc, F && f ) { T const o = *acc; *acc = f( o ); return o; }
#endif
}

template< typename POLICY, typename T, typename U > T atomicAdd( T * acc, U value )
{ return verif_detail::update( verif_detail::is_real_atomic< POLICY > {}, acc, [value]( T v ) { return static_cast< T >( v + value ); } ); }
template< typename POLICY, typename T, typename U > T atomicSub( T * acc, U value )
{ return verif_detail::update( verif_detail::is_real_atomic< POLICY > {}, acc, [value]( T v ) { return static_cast< T >( v - value ); } ); }
template< typename POLICY, typename T > T atomicInc( T * acc ) { return atomicAdd< POLICY >( acc, T( 1 ) ); }
template< typename POLICY, typename T > T atomicDec( T * acc ) { return atomicSub< POLICY >( acc, T( 1 ) ); }
template< typename POLICY, typename T > T atomicMin( T * acc, T value )
{ return verif_detail::update( verif_detail::is_real_atomic< POLICY > {}, acc, [value]( T v ) { return v < value ? v : value; } ); }
template< typename POLICY, typename T > T atomicMax( T * acc, T value )
{ return verif_detail::update( verif_detail::is_real_atomic< POLICY > {}, acc, [value]( T v ) { return v > value ? v : value; } ); }
template< typename POLICY, typename T > T atomicExchange( T * acc, T value )
{ return verif_detail::update( verif_detail::is_real_atomic< POLICY > {}, acc, [value]( T ) { return value; } ); }
template< typename POLICY, typename T > T atomicCAS( T * acc, T compare, T value )
{ return verif_detail::update( verif_detail::is_real_atomic< POLICY > {}, acc, [=]( T v ) { return v == compare ? value : v; } ); }

// -------------------------------------------------------------------------------------------------
namespace operators
{
template< typename T > struct plus { T operator()( T const & a, T const & b ) const { return a + b; } static T identity() { return T {}; } };
template< typename T > struct minimum { T operator()( T const & a, T const & b ) const { return b < a ? b : a; } };
template< typename T > struct maximum { T operator()( T const & a, T const & b ) const { return a < b ? b : a; } };
}

template< typename POLICY, typename IN, typename OUT >
void inclusive_scan( IN begin, IN end, OUT out ) { std::partial_sum( begin, end, out ); }
template< typename POLICY, typename IN, typename OUT, typename F >
void inclusive_scan( IN begin, IN end, OUT out, F f ) { std::partial_sum( begin, end, out, f ); }
template< typename POLICY, typename IT >
void inclusive_scan_inplace( IT begin, IT end ) { std::partial_sum( begin, end, begin ); }
template< typename POLICY, typename IT, typename F >
void inclusive_scan_inplace( IT begin, IT end, F f ) { std::partial_sum( begin, end, begin, f ); }
template< typename POLICY, typename IN, typename OUT >
void exclusive_scan( IN begin, IN end, OUT out )
{
  using T = typename std::iterator_traits< OUT >::value_type;
  T sum = T {};
  for(; begin != end; ++begin, ++out ) { T const v = *begin; *out = sum; sum = sum + v; }
}
template< typename POLICY, typename IT >
void exclusive_scan_inplace( IT begin, IT end ) { exclusive_scan< POLICY >( begin, end, begin ); }
template< typename POLICY, typename IT > void sort( IT begin, IT end ) { std::sort( begin, end ); }
template< typename POLICY, typename IT > void stable_sort( IT begin, IT end ) { std::stable_sort( begin, end ); }

// -------------------------------------------------------------------------------------------------
namespace verif_detail
{
template< typename T, typename OP > class Reducer
{
public:
  Reducer( T init ): m_value( std::make_shared< T >( init ) ) {}
  void combine( T v ) const { *m_value = OP()( *m_value, v ); }
  T get() const { return *m_value; }
  operator T() const { return get(); }
protected:
  std::shared_ptr< T > m_value;
};
template< typename T > struct bitand_ { T operator()( T a, T b ) const { return static_cast< T >( a & b ); } };
template< typename T > struct bitor_ { T operator()( T a, T b ) const { return static_cast< T >( a | b ); } };
}
template< typename P, typename T > struct ReduceSum : verif_detail::Reducer< T, operators::plus< T > >
{ using B = verif_detail::Reducer< T, operators::plus< T > >; ReduceSum( T i = T {} ): B( i ) {} ReduceSum const & operator+=( T v ) const { this->combine( v ); return *this; } };
template< typename P, typename T > struct ReduceMin : verif_detail::Reducer< T, operators::minimum< T > >
{ using B = verif_detail::Reducer< T, operators::minimum< T > >; ReduceMin( T i ): B( i ) {} ReduceMin const & min( T v ) const { this->combine( v ); return *this; } };
template< typename P, typename T > struct ReduceMax : verif_detail::Reducer< T, operators::maximum< T > >
{ using B = verif_detail::Reducer< T, operators::maximum< T > >; ReduceMax( T i ): B( i ) {} ReduceMax const & max( T v ) const { this->combine( v ); return *this; } };
template< typename P, typename T > struct ReduceBitAnd : verif_detail::Reducer< T, verif_detail::bitand_< T > >
{ using B = verif_detail::Reducer< T, verif_detail::bitand_< T > >; ReduceBitAnd( T i ): B( i ) {} ReduceBitAnd const & operator&=( T v ) const { this->combine( v ); return *this; } };
template< typename P, typename T > struct ReduceBitOr : verif_detail::Reducer< T, verif_detail::bitor_< T > >
{ using B = verif_detail::Reducer< T, verif_detail::bitor_< T > >; ReduceBitOr( T i ): B( i ) {} ReduceBitOr const & operator|=( T v ) const { this->combine( v ); return *this; } };

// -------------------------------------------------------------------------------------------------
template< typename PERM > struct as_array;
template< typename T, T... Is > struct as_array< camp::int_seq< T, Is... > >
{ static constexpr std::array< Index_type, sizeof...( Is ) > get() { return {{ Is... }}; } };
}
