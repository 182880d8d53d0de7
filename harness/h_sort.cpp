// C09 sorting, dual sorting, duplicate removal and the order predicates.
#include "sortedArrayManipulation.hpp"
#include "elem.hpp"
#include "lv.hpp"
#include <algorithm>
#include <deque>
#include <list>
using namespace pbt;
using namespace lv;
namespace sam = LvArray::sortedArrayManipulation;

namespace
{
/// McIlroy's adversary: answers comparisons so that the sorting algorithm at hand degenerates, and fixes an order doing so.
struct Adversary
{
  struct State { std::vector< int > v; int solid = 0, candidate = 0, gas = 0; };
  State * st;
  bool operator()( int const & x, int const & y ) const
  {
    auto & s = *st;
    if( s.v[ x ] == s.gas && s.v[ y ] == s.gas ) { if( x == s.candidate ) s.v[ x ] = s.solid++; else s.v[ y ] = s.solid++; }
    if( s.v[ x ] == s.gas ) s.candidate = x; else if( s.v[ y ] == s.gas ) s.candidate = y;
    return s.v[ x ] < s.v[ y ];
  }
};

std::vector< int > drawValues( Src & s, std::size_t maxLen )
{
  std::size_t const k = s.weighted( { 4, 2, 1, 1, 1, 1, 2, 1 } );
  // Lengths around the threshold between insertion sort and partitioning are frequent.
  std::size_t n = s.boolean( 0.3 ) ? 60 + s.choose( 80 ) : s.length( k == 0 ? std::min< std::size_t >( maxLen, 200 ) : maxLen );
  std::vector< int > v( n );
  static char const * const names[] = { "random", "few distinct", "sorted", "reversed", "organ pipe", "sorted with swaps", "adversarial", "sawtooth" };
  s.label( names[ k ] );
  if( n > 64 ) s.label( "longer than the threshold" );
  LOG( s, names[ k ] << " of length " << n );
  int const N = static_cast< int >( n );
  switch( k )
  {
    case 0: for( auto & x : v ) x = static_cast< int >( s.range( -1000, 1000 ) ); break;
    case 1: { int const d = static_cast< int >( s.choose( 4 ) ); std::uint64_t st = s.choose( 1u << 30 ); for( auto & x : v ) { st = st * 6364136223846793005ull + 1442695040888963407ull; x = static_cast< int >( ( st >> 33 ) % ( d + 1 ) ); } break; }
    case 2: for( int i = 0; i < N; ++i ) v[ i ] = i / 2; break;
    case 3: for( int i = 0; i < N; ++i ) v[ i ] = N - i; break;
    case 4: for( int i = 0; i < N; ++i ) v[ i ] = i < N / 2 ? i : N - i; break;
    case 5:
      for( int i = 0; i < N; ++i ) v[ i ] = i;
      for( std::size_t c = n ? s.choose( 10 ) : 0; c > 0; --c ) std::swap( v[ s.choose( n - 1 ) ], v[ s.choose( n - 1 ) ] );
      break;
    case 6:
    {
      // Built against dualSort itself; the run that builds it is a valid use as well.
      Adversary::State st; st.v.assign( n, N ); st.gas = N;
      std::vector< int > ids( n ), data( n );
      for( int i = 0; i < N; ++i ) ids[ i ] = data[ i ] = i;
      sam::dualSort( ids.data(), ids.data() + n, data.data(), Adversary { &st } );
      v = st.v;
      break;
    }
    default: { int const p = 1 + static_cast< int >( s.choose( 50 ) ); for( int i = 0; i < N; ++i ) v[ i ] = i % p * ( i % 3 == 0 ? -1 : 1 ); }
  }
  return v;
}

/// The strict weak orders used; the last two make distinct values equivalent.
struct Order
{
  int kind;
  template< typename T > bool operator()( T const & a, T const & b ) const
  {
    int const x = val( a ), y = val( b );
    switch( kind ) { case 0: return x < y; case 1: return x > y; case 2: return std::abs( x ) < std::abs( y ); default: return x / 8 < y / 8; }
  }
};
char const * const ORDERS[] = { "less", "greater", "by absolute value", "by eighth" };

/// Whether < on T is < on the ints it holds.
template< typename T > constexpr bool natural = !std::is_same< T, std::string >::value;

template< typename T > void checkSorted( T const & c, std::vector< int > const & in, Order const & o, char const * what )
{
  std::vector< int > out; for( auto const & x : c ) out.push_back( val( x ) );
  for( std::size_t i = 1; i < out.size(); ++i ) CHECK( !o( out[ i ], out[ i - 1 ] ), what, " left ", out[ i - 1 ], " before ", out[ i ], " at ", i );
  std::vector< int > a = in, b = out; std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
  CHECK( a == b, what, " changed the multiset of values" );
}

template< typename T, typename D > void dual( Src & s )
{
  resetLedger();
  auto const in = drawValues( s, 1500 );
  Order const o { static_cast< int >( s.weighted( { 3, 1, 1, 1 } ) ) };
  bool const deque = s.boolean( 0.2 );
  LOG( s, "dualSort " << ORDERS[ o.kind ] << ( deque ? " deque" : " pointers" ) );
  if( in.size() > 2 ) s.nontrivial();
  std::vector< int > ids;
  if( deque )
  {
    std::deque< T > k; std::deque< D > d;
    for( std::size_t i = 0; i < in.size(); ++i ) { k.emplace_back( mk< T >( in[ i ] ) ); d.emplace_back( mk< D >( static_cast< int >( i ) ) ); }
    if( natural< T > && o.kind == 0 ) sam::dualSort( k.begin(), k.end(), d.begin() );
    else sam::dualSort( k.begin(), k.end(), d.begin(), o );
    checkSorted( k, in, o, "dualSort" );
    for( std::size_t i = 0; i < in.size(); ++i ) { int const id = val( d[ i ] ); CHECK( id >= 0 && id < static_cast< int >( in.size() ) && val( k[ i ] ) == in[ static_cast< std::size_t >( id ) ], "dualSort separated a value from its data at ", i ); ids.push_back( id ); }
    if( isTracked< T > ) checkLedger( static_cast< long >( in.size() * ( isTracked< D > ? 2 : 1 ) ), "dualSort" );
  }
  else
  {
    // Blocks of exactly the right size.
    std::vector< T > k; std::vector< D > d; k.reserve( in.size() ); d.reserve( in.size() );
    for( std::size_t i = 0; i < in.size(); ++i ) { k.emplace_back( mk< T >( in[ i ] ) ); d.emplace_back( mk< D >( static_cast< int >( i ) ) ); }
    k.shrink_to_fit(); d.shrink_to_fit();
    if( natural< T > && o.kind == 0 && s.boolean() ) sam::dualSort( k.data(), k.data() + k.size(), d.data() );
    else if( natural< T > && o.kind == 1 && s.boolean() ) sam::dualSort( k.data(), k.data() + k.size(), d.data(), sam::greater< T >() );
    else sam::dualSort( k.data(), k.data() + k.size(), d.data(), o );
    checkSorted( k, in, o, "dualSort" );
    for( std::size_t i = 0; i < in.size(); ++i ) { int const id = val( d[ i ] ); CHECK( id >= 0 && id < static_cast< int >( in.size() ) && val( k[ i ] ) == in[ static_cast< std::size_t >( id ) ], "dualSort separated a value from its data at ", i ); ids.push_back( id ); }
    if( isTracked< T > ) checkLedger( static_cast< long >( in.size() * ( isTracked< D > ? 2 : 1 ) ), "dualSort" );
  }
  std::sort( ids.begin(), ids.end() );
  for( std::size_t i = 0; i < ids.size(); ++i ) CHECK_EQ( ids[ i ], static_cast< int >( i ), "dualSort duplicated companion data" );
}
Registrar r1( "dual_sort_int", dual< int, int >, 5000, "at least three values; random, structured and adversarial orders" );
Registrar r2( "dual_sort_tracked", dual< Tracked, Tracked >, 1500, "as dual_sort_int, with element lifetimes recorded" );
Registrar r3( "dual_sort_string", dual< std::string, std::string >, 1200, "as dual_sort_int, with strings", true );
Registrar r4( "dual_sort_mixed", dual< long, std::string >, 1500, "as dual_sort_int, keys and data of different types", true );
Registrar r4x( "dual_sort_placed", dual< Placed, Placed >, 1500, "as dual_sort_int, with elements whose copying does more than copy bytes" );

template< typename T > void unary( Src & s )
{
  resetLedger();
  auto const in = drawValues( s, 600 );
  Order const o { static_cast< int >( s.choose( 3 ) ) };
  int const op = static_cast< int >( s.choose( 4 ) );
  LOG( s, "operation " << op << " order " << ORDERS[ o.kind ] );
  if( in.size() > 1 ) s.nontrivial();
  std::vector< T > v; v.reserve( in.size() ); for( int x : in ) v.emplace_back( mk< T >( x ) );
  std::list< T > l( v.begin(), v.end() );
  auto expectedUnique = [&]( std::vector< int > a )
  {
    std::vector< int > u;
    for( int x : a ) if( u.empty() || o( u.back(), x ) ) u.push_back( x );
    return u;
  };
  switch( op )
  {
    case 0:
      s.label( "makeSorted" );
      if( natural< T > && o.kind == 0 && s.boolean() ) sam::makeSorted( v.data(), v.data() + v.size() ); else sam::makeSorted( v.begin(), v.end(), o );
      checkSorted( v, in, o, "makeSorted" );
      break;
    case 1:
    {
      s.label( "makeSortedUnique" );
      std::ptrdiff_t const n = natural< T > && o.kind == 0 && s.boolean() ? sam::makeSortedUnique( v.begin(), v.end() ) : sam::makeSortedUnique( v.data(), v.data() + v.size(), o );
      // One representative of each equivalence class, in order.
      std::vector< int > a = in; std::stable_sort( a.begin(), a.end(), o );
      auto const u = expectedUnique( a );
      CHECK_EQ( n, static_cast< std::ptrdiff_t >( u.size() ), "number of unique values" );
      std::set< int > const members( in.begin(), in.end() );
      for( std::size_t i = 0; i < u.size(); ++i )
      {
        int const x = val( v[ i ] );
        CHECK( !o( x, u[ i ] ) && !o( u[ i ], x ), "unique value ", i, " is ", x );
        CHECK( members.count( x ), "makeSortedUnique invented ", x );
      }
      break;
    }
    case 2:
    {
      s.label( "removeDuplicates" );
      std::vector< int > a = in; std::stable_sort( a.begin(), a.end(), o );
      v.clear(); l.clear(); for( int x : a ) { v.emplace_back( mk< T >( x ) ); l.emplace_back( mk< T >( x ) ); }
      auto const u = expectedUnique( a );
      std::ptrdiff_t const n = natural< T > && o.kind == 0 && s.boolean() ? sam::removeDuplicates( v.data(), v.data() + v.size() ) : sam::removeDuplicates( v.begin(), v.end(), o );
      CHECK_EQ( n, static_cast< std::ptrdiff_t >( u.size() ), "number of unique values" );
      for( std::size_t i = 0; i < u.size(); ++i ) CHECK_EQ( val( v[ i ] ), u[ i ], "the first of each run is kept, at ", i );
      CHECK_EQ( sam::removeDuplicates( l.begin(), l.end(), o ), n, "with list iterators" );
      auto it = l.begin();
      for( std::size_t i = 0; i < u.size(); ++i, ++it ) CHECK_EQ( val( *it ), u[ i ], "with list iterators at ", i );
      break;
    }
    default:
    {
      s.label( op == 3 ? "isSorted" : "isSortedUnique" );
      // Sorted, sorted unique, or one disturbance in either.
      std::vector< int > a = in;
      std::size_t const how = s.choose( 4 );
      if( how >= 1 ) std::stable_sort( a.begin(), a.end(), o );
      if( how >= 2 ) a = expectedUnique( a );
      if( how >= 3 && a.size() > 1 ) { std::size_t const i = s.boolean( 0.4 ) ? a.size() - 2 : s.choose( a.size() - 2 ); if( how == 3 ) std::swap( a[ i ], a[ i + 1 ] ); else a[ i + 1 ] = a[ i ]; }
      v.clear(); l.clear(); for( int x : a ) { v.emplace_back( mk< T >( x ) ); l.emplace_back( mk< T >( x ) ); }
      bool sorted = true, unique = true;
      for( std::size_t i = 1; i < a.size(); ++i ) { sorted &= !o( a[ i ], a[ i - 1 ] ); unique &= o( a[ i - 1 ], a[ i ] ); }
      s.label( unique ? "sorted unique" : sorted ? "sorted with duplicates" : "unsorted" );
      CHECK_EQ( sam::isSorted( v.begin(), v.end(), o ), sorted, "isSorted" );
      CHECK_EQ( sam::isSorted( l.begin(), l.end(), o ), sorted, "isSorted with list iterators" );
      CHECK_EQ( sam::isSortedUnique( v.data(), v.data() + v.size(), o ), unique, "isSortedUnique" );
      CHECK_EQ( sam::isSortedUnique( l.begin(), l.end(), o ), unique, "isSortedUnique with list iterators" );
      if( natural< T > && o.kind == 0 )
      {
        CHECK_EQ( sam::isSorted( v.data(), v.data() + v.size() ), sorted, "isSorted by less" );
        CHECK_EQ( sam::isSortedUnique( v.begin(), v.end() ), unique, "isSortedUnique by less" );
      }
      for( std::size_t i = 0; i < a.size(); ++i ) CHECK_EQ( val( v[ i ] ), a[ i ], "a predicate changed the range" );
    }
  }
  if( isTracked< T > ) CHECK( ledger().error.empty(), ledger().error );
}
Registrar r5( "sort_int", unary< int >, 8000, "at least two values; makeSorted, makeSortedUnique, removeDuplicates and the predicates" );
Registrar r6( "sort_tracked", unary< Tracked >, 2000, "as sort_int, with element lifetimes recorded" );
Registrar r7( "sort_string", unary< std::string >, 1500, "as sort_int, with strings", true );
Registrar r7x( "sort_placed", unary< Placed >, 2000, "as sort_int, with elements whose copying does more than copy bytes" );

void descriptions( Src & s )
{
  int const k = static_cast< int >( s.choose( 3 ) );
  s.nontrivial();
  LOG( s, "description " << k );
  sam::Description const d[] = { sam::SORTED_UNIQUE, sam::UNSORTED_NO_DUPLICATES, sam::SORTED_WITH_DUPLICATES, sam::UNSORTED_WITH_DUPLICATES };
  CHECK_EQ( sam::isSorted( d[ k ] ), k == 0 || k == 2 );
  CHECK_EQ( sam::isUnique( d[ k ] ), k == 0 || k == 1 );
}
Registrar r8( "descriptions", descriptions, 40, "all four descriptions" );
}
