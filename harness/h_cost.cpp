// C39: operations cost what they are documented to: element operations, comparisons and allocations are counted.
#include "arr.hpp"
#include "ragged.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include <cmath>
using namespace pbt;
using LvArray::MallocBuffer;
using IX = std::ptrdiff_t;

namespace
{
struct Counts { long made = 0, copied = 0, moved = 0, ended = 0, compared = 0, added = 0, allocated = 0, live = 0; };
Counts now;

/// A value that counts what is done with it.
struct Counted
{
  int x;
  Counted( int v = 0 ): x( v ) { ++now.made; }
  Counted( Counted const & o ): x( o.x ) { ++now.copied; }
  Counted( Counted && o ) noexcept: x( o.x ) { ++now.moved; }
  Counted & operator=( Counted const & o ) { x = o.x; ++now.copied; return *this; }
  Counted & operator=( Counted && o ) noexcept { x = o.x; ++now.moved; return *this; }
  ~Counted() { ++now.ended; }
  Counted & operator+=( Counted const & o ) { x += o.x; ++now.added; return *this; }
  friend bool operator<( Counted const & a, Counted const & b ) { ++now.compared; return a.x < b.x; }
  friend bool operator>( Counted const & a, Counted const & b ) { ++now.compared; return a.x > b.x; }
  friend bool operator<=( Counted const & a, Counted const & b ) { ++now.compared; return a.x <= b.x; }
  friend bool operator>=( Counted const & a, Counted const & b ) { ++now.compared; return a.x >= b.x; }
  friend bool operator==( Counted const & a, Counted const & b ) { ++now.compared; return a.x == b.x; }
  friend bool operator!=( Counted const & a, Counted const & b ) { ++now.compared; return a.x != b.x; }
  friend std::ostream & operator<<( std::ostream & o, Counted const & c ) { return o << c.x; }
};

template< typename F > Counts cost( F && f )
{
  Counts const b = now;
  f();
  Counts d;
  d.made = now.made - b.made; d.copied = now.copied - b.copied; d.moved = now.moved - b.moved; d.ended = now.ended - b.ended; d.compared = now.compared - b.compared; d.added = now.added - b.added; d.allocated = now.allocated - b.allocated;
  return d;
}
/// Objects made, copied, moved or destroyed.
long touched( Counts const & c ) { return c.made + c.copied + c.moved + c.ended; }
double lg( double n ) { return std::log2( n + 2 ); }
constexpr long K = 16;         // what a constant number of element operations may be
constexpr long C = 8;          // and how many there may be for each element

#define AT_MOST( got, bound, ... ) CHECK( double( got ) <= double( bound ), __VA_ARGS__, ": ", ( got ), " operations, at most ", ( bound ), " expected" )
/// An operation that leaves the elements alone and allocates nothing.
#define FREE( f, what ) do { Counts const d_ = cost( f ); CHECK_EQ( touched( d_ ) + d_.compared, 0L, "elements touched by ", what ); CHECK_EQ( d_.allocated, 0L, "allocations by ", what ); } while( 0 )

/// Mostly small lengths, sometimes some hundreds, so that linear and quadratic costs stand out.
long bigLength( Src & s, long mx ) { return s.boolean( 0.4 ) ? s.range< long >( mx / 4, mx ) : static_cast< long >( s.length( 30 ) ); }

// ------------------------------------------------------------------------------------------------- one dimension
void arrayCosts( Src & s )
{
  LvArray::Array< Counted, 1, RAJA::PERM_I, IX, MallocBuffer > a;
  std::vector< int > m;
  std::size_t n = 0;
  bool large = false;
  while( s.more( n, 30, 14 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size(), cap = a.capacity();
    if( size > 100 ) large = true;
    int const op = s.weighted( { 3, 3, 3, 3, 3, 2, 2, 2, 2, 2 } );
    LOG( s, "operation " << op << " of " << size << " values, capacity " << cap );
    switch( op )
    {
      case 0: { long const k = bigLength( s, 400 ); Counts const d = cost( [&]() { a.resize( k ); } ); AT_MOST( touched( d ), C * std::abs( k - size ) + ( k > cap ? C * size : 0 ) + K, "resize from ", size, " to ", k ); m.resize( k ); break; }
      case 1: { Counts const d = cost( [&]() { a.emplace_back( 5 ); } ); AT_MOST( touched( d ), ( size < cap ? 0 : C * size ) + K, "emplace_back to ", size, " values, capacity ", cap ); m.push_back( 5 ); break; }
      case 2: { long const p = s.range< long >( 0, size ); Counts const d = cost( [&]() { a.emplace( p, 7 ); } ); AT_MOST( touched( d ), C * ( size < cap ? size - p : size ) + K, "emplace at ", p, " of ", size ); m.insert( m.begin() + p, 7 ); break; }
      case 3:
      {
        long const p = s.range< long >( 0, size ), k = bigLength( s, 200 ); std::vector< Counted > const c( k, Counted( 3 ) );
        Counts const d = cost( [&]() { a.insert( p, c.begin(), c.end() ); } ); AT_MOST( touched( d ), C * ( ( size + k <= cap ? size - p : size ) + k ) + K, "insert of ", k, " at ", p, " of ", size ); m.insert( m.begin() + p, k, 3 ); break;
      }
      case 4: if( size ) { long const p = s.range< long >( 0, size - 1 ); Counts const d = cost( [&]() { a.erase( p ); } ); AT_MOST( touched( d ), C * ( size - p ) + K, "erase at ", p, " of ", size ); m.erase( m.begin() + p ); } break;
      case 5: if( size ) { Counts const d = cost( [&]() { a.pop_back(); } ); AT_MOST( touched( d ), K, "pop_back of ", size ); m.pop_back(); } break;
      case 6: { long const k = bigLength( s, 600 ); Counts const d = cost( [&]() { a.reserve( k ); } ); AT_MOST( touched( d ), ( k > cap ? C * size : 0 ), "reserve ", k, " of ", cap ); break; }
      case 7:
      {
        FREE( ( [&]() { auto const v = a.toView(); auto const w = a.toViewConst(); auto const x = v; auto const y = a.toSlice(); auto const z = a.toSliceConst(); long sum = 0; for( Counted const & c : w ) sum += c.x; for( long i = 0; i < size; ++i ) sum += x[ i ].x + v( i ).x; CHECK( sum >= 0 && y.size() == z.size() ); } ), "views" );
        auto b = a.toView();
        FREE( ( [&]() { b = a.toView(); b = std::move( b ); } ), "assigning views" );
        break;
      }
      case 8:
      {
        FREE( ( [&]() { auto b( std::move( a ) ); a = std::move( b ); } ), "moving" );
        break;
      }
      default:
      {
        Counts const d = cost( [&]() { auto const b( a ); CHECK_EQ( long( b.size() ), size ); } ); AT_MOST( touched( d ), C * size + K, "copying ", size ); AT_MOST( d.allocated, 1, "allocations by copying" );
        Counts const e = cost( [&]() { a.clear(); } ); AT_MOST( touched( e ), C * size + K, "clear" ); CHECK_EQ( e.allocated, 0L, "allocations by clear" ); m.clear();
      }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
  }
  if( large ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- more dimensions
void multiCosts( Src & s )
{
  using A = LvArray::Array< Counted, 3, RAJA::PERM_KIJ, IX, MallocBuffer >;
  long const x = s.range( 0, 9 ), y = s.range( 0, 9 ), z = s.range( 0, 9 );
  A a( x, y, z );
  long const size = x * y * z;
  LOG( s, x << " x " << y << " x " << z );
  FREE( ( [&]()
  {
    auto const v = a.toView(); auto const w = v.toViewConst(); auto const u( w ); auto const t = w.toSliceConst();
    long sum = 0;
    for( long i = 0; i < x; ++i ) { auto const r = w[ i ]; for( long j = 0; j < y; ++j ) { auto const q = r[ j ]; auto const o = t[ i ][ j ]; for( long k = 0; k < z; ++k ) sum += q[ k ].x + o( k ).x + u( i, j, k ).x; } }
    CHECK( sum == 0 );
  } ), "views and slices" );
  FREE( ( [&]() { A b( std::move( a ) ); a = std::move( b ); } ), "moving" );
  int const dim = s.range( 0, 2 ); a.setSingleParameterResizeIndex( dim );
  long const len = s.range( 0, 12 );
  long const want = len * ( dim == 0 ? y * z : dim == 1 ? x * z : x * y );
  LOG( s, "resize dimension " << dim << " to " << len );
  Counts const d = cost( [&]() { if( s.boolean() ) a.resize( len ); else a.resizeDefault( len, Counted( 1 ) ); } );
  AT_MOST( touched( d ), C * ( size + want ) + K, "resize of ", size, " to ", want ); AT_MOST( d.allocated, 1, "allocations by a resize" );
  CHECK_EQ( long( a.size() ), want );
  if( size > 60 && want > 60 ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- sorted arrays
std::vector< int > someSorted( Src & s, long k, int domain ) { std::set< int > b; for( long i = 0; i < k; ++i ) b.insert( s.range( 0, domain ) ); return { b.begin(), b.end() }; }
/// The documented comparisons for finding one value among n.
double found( double n ) { return 3 * lg( n ) + 12; }

void sortedCosts( Src & s )
{
  LvArray::SortedArray< Counted, IX, MallocBuffer > a;
  std::set< int > m;
  int const domain = s.boolean() ? 3000 : 300;
  std::size_t n = 0;
  bool large = false;
  while( s.more( n, 24, 12 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size();
    if( size > 64 ) large = true;
    int const op = s.weighted( { 4, 3, 3, 3, 3, 1 } );
    LOG( s, "operation " << op << " of " << size << " values" );
    auto const position = [&]( int v ) { return long( std::distance( m.begin(), m.lower_bound( v ) ) ); };
    switch( op )
    {
      case 0:
      {
        auto const v = someSorted( s, bigLength( s, 200 ), domain ); std::vector< Counted > const c( v.begin(), v.end() ); long const k = v.size();
        Counts const d = cost( [&]() { a.insert( c.begin(), c.end() ); } ); m.insert( v.begin(), v.end() );
        AT_MOST( touched( d ), C * ( size + k ) + K, "inserting ", k, " into ", size ); AT_MOST( d.compared, C * ( size + k ) + k * found( size + k ) + K, "comparisons inserting ", k, " into ", size ); AT_MOST( d.allocated, 1, "allocations by a batch insertion" ); break;
      }
      case 1:
      {
        auto v = someSorted( s, bigLength( s, 100 ), domain ); if( s.boolean() ) for( int x : m ) if( s.boolean( 0.3 ) ) v.push_back( x );
        std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() );
        std::vector< Counted > const c( v.begin(), v.end() ); long const k = v.size();
        Counts const d = cost( [&]() { a.remove( c.begin(), c.end() ); } ); for( int x : v ) m.erase( x );
        AT_MOST( touched( d ), C * ( size + k ) + K, "removing ", k, " from ", size ); AT_MOST( d.compared, C * ( size + k ) + k * found( size ) + K, "comparisons removing ", k, " from ", size ); CHECK_EQ( d.allocated, 0L, "allocations by a removal" ); break;
      }
      case 2:
      {
        Counted const c( s.range( 0, domain ) ); long const p = position( c.x );
        Counts const d = cost( [&]() { a.insert( c ); } ); bool const added = m.insert( c.x ).second;
        AT_MOST( touched( d ), ( d.allocated ? C * size : added ? C * ( size - p ) : 0 ) + K, "inserting at ", p, " of ", size ); AT_MOST( d.compared, found( size ), "comparisons inserting into ", size ); break;
      }
      case 3:
      {
        Counted const c( s.boolean() && size ? *std::next( m.begin(), s.range< long >( 0, size - 1 ) ) : s.range( 0, domain ) ); long const p = position( c.x );
        Counts const d = cost( [&]() { a.remove( c ); } ); bool const gone = m.erase( c.x );
        AT_MOST( touched( d ), ( gone ? C * ( size - p ) : 0 ) + K, "removing at ", p, " of ", size ); AT_MOST( d.compared, found( size ), "comparisons removing from ", size ); CHECK_EQ( d.allocated, 0L, "allocations by a removal" ); break;
      }
      case 4:
      {
        Counted const c( s.boolean() && size ? *std::next( m.begin(), s.range< long >( 0, size - 1 ) ) : s.range( -2, domain + 2 ) ); auto const v = a.toView();
        Counts const d = cost( [&]() { CHECK_EQ( v.contains( c ), m.count( c.x ) == 1 ); } );
        AT_MOST( d.compared, found( size ), "comparisons looking for a value among ", size ); CHECK_EQ( touched( d ) + d.allocated, 0L, "objects and allocations of contains" ); break;
      }
      default:
        FREE( ( [&]() { auto b( std::move( a ) ); a = std::move( b ); auto const v = a.toView(); auto const w = v; CHECK_EQ( long( w.size() ), size ); } ), "moving and views" );
        if( s.boolean() ) { Counts const d = cost( [&]() { auto const b( a ); CHECK_EQ( long( b.size() ), size ); } ); AT_MOST( touched( d ), C * size + K, "copying ", size ); AT_MOST( d.allocated, 1, "allocations by copying" ); }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
  }
  if( large ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- arrays of arrays
using AoA = LvArray::ArrayOfArrays< Counted, IX, MallocBuffer >;
using AoS = LvArray::ArrayOfSets< Counted, IX, MallocBuffer >;
template< typename A > long total( A const & a ) { long t = 0; for( long i = 0; i < long( a.size() ); ++i ) { if constexpr( std::is_same< A, AoA >::value ) t += a.sizeOfArray( i ); else t += a.sizeOfSet( i ); } return t; }
template< typename A > long after( A const & a, long i ) { long t = 0; for( ; i < long( a.size() ); ++i ) { if constexpr( std::is_same< A, AoA >::value ) t += a.sizeOfArray( i ); else t += a.sizeOfSet( i ); } return t; }

void aoaCosts( Src & s )
{
  long const alive = now.live;
  AoA a;
  std::vector< long > m;
  std::size_t n = 0;
  bool large = false;
  while( s.more( n, 40, 20 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size(), all = total( a );
    if( all > 200 && size > 4 ) large = true;
    int const op = s.weighted( { 5, 2, 2, 5, 4, 3, 3, 2, 1, 2, 1, 1, 2 } );
    if( op >= 2 && op <= 8 && size == 0 ) continue;
    long const i = op >= 2 && op <= 8 ? s.range< long >( 0, size - 1 ) : 0, len = size ? m[ i ] : 0;
    LOG( s, "operation " << op << " on array " << i << " of " << size << " with " << len << " of " << all << " values" );
    bool const spare = size && len < long( a.capacityOfArray( i ) );
    switch( op )
    {
      case 0: { long const k = s.boolean( 0.3 ) ? s.range< long >( 20, 80 ) : s.length( 10 ); std::vector< Counted > const c( k, Counted( 2 ) ); Counts const d = cost( [&]() { if( s.boolean() ) a.appendArray( c.begin(), c.end() ); else a.appendArray( k ); } ); AT_MOST( touched( d ), C * ( k + ( d.allocated ? all : 0 ) ) + K, "appending an array of ", k, " to ", all, " values" ); m.push_back( k ); break; }
      case 1: { long const p = s.range< long >( 0, size ), k = s.length( 30 ); std::vector< Counted > const c( k, Counted( 2 ) ); Counts const d = cost( [&]() { a.insertArray( p, c.begin(), c.end() ); } ); AT_MOST( touched( d ), C * ( k + all ) + K, "inserting an array of ", k, " before ", p, " among ", all, " values" ); m.insert( m.begin() + p, k ); break; }
      case 2: { long const rest = after( a, i ); Counts const d = cost( [&]() { a.eraseArray( i ); } ); AT_MOST( touched( d ), C * rest + K, "erasing array ", i, " with ", rest, " values from there" ); CHECK_EQ( d.allocated, 0L, "allocations by eraseArray" ); m.erase( m.begin() + i ); break; }
      case 3: { Counts const d = cost( [&]() { if( spare && s.boolean() ) a.toView().emplaceBack( i, 4 ); else a.emplaceBack( i, 4 ); } ); AT_MOST( touched( d ), ( spare ? 0 : C * all ) + K, "emplaceBack with", spare ? "" : "out", " spare capacity among ", all, " values" ); if( spare ) CHECK_EQ( d.allocated, 0L ); ++m[ i ]; break; }
      case 4: { long const p = s.range< long >( 0, len ); Counts const d = cost( [&]() { if( spare && s.boolean() ) a.toView().emplace( i, p, 4 ); else a.emplace( i, p, 4 ); } ); AT_MOST( touched( d ), C * ( spare ? len - p : all ) + K, "emplace at ", p, " of ", len, spare ? " with" : " without", " spare capacity" ); if( spare ) CHECK_EQ( d.allocated, 0L ); ++m[ i ]; break; }
      case 5: { long const p = s.range< long >( 0, len ), k = s.length( 20 ); std::vector< Counted > const c( k, Counted( 2 ) ); bool const fits = len + k <= long( a.capacityOfArray( i ) ); Counts const d = cost( [&]() { a.insertIntoArray( i, p, c.begin(), c.end() ); } ); AT_MOST( touched( d ), C * ( k + ( fits ? len - p : all ) ) + K, "inserting ", k, " at ", p, " of ", len ); if( fits ) CHECK_EQ( d.allocated, 0L ); m[ i ] += k; break; }
      case 6: if( len ) { long const p = s.range< long >( 0, len - 1 ), k = s.range< long >( 1, len - p ); Counts const d = cost( [&]() { a.eraseFromArray( i, p, k ); } ); AT_MOST( touched( d ), C * ( len - p ) + K, "erasing ", k, " at ", p, " of ", len ); CHECK_EQ( d.allocated, 0L ); m[ i ] -= k; } break;
      case 7: { long const k = bigLength( s, 60 ); bool const fits = k <= long( a.capacityOfArray( i ) ); Counts const d = cost( [&]() { a.resizeArray( i, k ); } ); AT_MOST( touched( d ), C * ( std::abs( k - len ) + ( fits ? 0 : all ) ) + K, "resizing an array from ", len, " to ", k ); m[ i ] = k; break; }
      case 8: { long const k = s.range< long >( len, len + 40 ); Counts const d = cost( [&]() { a.setCapacityOfArray( i, k ); } ); AT_MOST( touched( d ), C * all + K, "setCapacityOfArray" ); break; }
      case 9:
        FREE( ( [&]() { AoA b( std::move( a ) ); a = std::move( b ); auto const v = a.toView(); auto const w = a.toViewConst(); auto const x = w; auto const y = a.toViewConstSizes(); long sum = 0; for( long k = 0; k < size; ++k ) { for( Counted const & c : x[ k ] ) sum += c.x; for( long j = 0; j < m[ k ]; ++j ) sum += v( k, j ).x + y[ k ][ j ].x; } CHECK( sum >= 0 ); } ), "moving, views and access" );
        break;
      case 10: { Counts const d = cost( [&]() { AoA const b( a ); CHECK_EQ( long( b.size() ), size ); } ); AT_MOST( touched( d ), C * all + K, "copying ", all, " values" ); AT_MOST( d.allocated, 3, "allocations by copying" ); break; }
      case 11: { Counts const d = cost( [&]() { a.compress(); } ); AT_MOST( touched( d ), C * all + K, "compress" ); CHECK_EQ( d.allocated, 0L, "allocations by compress" ); break; }
      default:
      {
        // What has been reserved is used before anything is allocated, arrays grow to up to twice what is put into them.
        long const arrays = s.range( 0, 12 ), values = s.range( 0, 100 ); long used = 0; for( long k = 0; k < size; ++k ) used += a.capacityOfArray( k );
        Counts const r = cost( [&]() { a.reserve( size + arrays ); a.reserveValues( used + 2 * values ); } ); AT_MOST( touched( r ), ( r.allocated ? C * all : 0 ), "reserving" );
        CHECK( long( a.capacity() ) >= size + arrays ); CHECK( long( a.valueCapacity() ) >= used + 2 * values );
        long left = values;
        for( long k = 0; k < arrays; ++k ) { long const len2 = s.range< long >( 0, left ); left -= len2; std::vector< Counted > const c( len2, Counted( 2 ) ); int const how = s.range( 0, 2 ); Counts const d = cost( [&]() { if( how == 0 ) a.appendArray( len2 ); else if( how == 1 ) a.appendArray( c.begin(), c.end() ); else { a.appendArray( c.begin(), c.begin() ); a.insertIntoArray( size + k, 0, c.begin(), c.end() ); } } ); CHECK_EQ( d.allocated, 0L, "allocations by appending ", len2, " reserved values" ); AT_MOST( touched( d ), C * len2 + K, "appending ", len2, " reserved values to ", all ); m.push_back( len2 ); }
      }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
    for( long k = 0; k < long( m.size() ); ++k ) CHECK_EQ( long( a.sizeOfArray( k ) ), m[ k ], "size of array ", k );
    // "just three allocations"
    AT_MOST( now.live - alive, 3, "allocations alive" );
  }
  if( large ) s.nontrivial();
}

void aosCosts( Src & s )
{
  AoS a;
  std::vector< std::set< int > > m;
  int const domain = 400;
  std::size_t n = 0;
  bool large = false;
  while( s.more( n, 30, 16 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size(), all = total( a );
    if( all > 150 && size > 2 ) large = true;
    int const op = s.weighted( { 3, 4, 3, 3, 3, 3, 1, 1 } );
    if( op >= 1 && op <= 5 && size == 0 ) continue;
    long const i = op >= 1 && op <= 5 ? s.range< long >( 0, size - 1 ) : 0, len = size ? long( m[ i ].size() ) : 0;
    LOG( s, "operation " << op << " on set " << i << " of " << size << " with " << len << " of " << all << " values" );
    switch( op )
    {
      case 0: { long const k = bigLength( s, 60 ); Counts const d = cost( [&]() { a.appendSet( k ); } ); AT_MOST( touched( d ), ( d.allocated ? C * all : 0 ) + K, "appending a set with capacity ", k ); m.emplace_back(); break; }
      case 1: case 2:
      {
        auto const v = someSorted( s, op == 1 ? bigLength( s, 80 ) : 1, domain ); std::vector< Counted > const c( v.begin(), v.end() ); long const k = v.size(); bool const fits = len + k <= long( a.capacityOfSet( i ) ); bool const view = fits && s.boolean();
        Counts const d = cost( [&]() { if( op == 2 ) { if( view ) a.toView().insertIntoSet( i, c[ 0 ] ); else a.insertIntoSet( i, c[ 0 ] ); } else if( view ) a.toView().insertIntoSet( i, c.begin(), c.end() ); else a.insertIntoSet( i, c.begin(), c.end() ); } );
        m[ i ].insert( v.begin(), v.end() );
        AT_MOST( touched( d ), C * ( fits ? len + k : all + k ) + K, "inserting ", k, " into ", len, " of ", all ); AT_MOST( d.compared, C * ( k > 1 ? len + k : 0 ) + k * found( len + k ) + K, "comparisons inserting ", k, " into ", len ); if( fits ) CHECK_EQ( d.allocated, 0L ); break;
      }
      case 3: case 4:
      {
        auto v = someSorted( s, op == 3 ? bigLength( s, 60 ) : 1, domain ); if( op == 3 ) for( int x : m[ i ] ) if( s.boolean( 0.3 ) ) v.push_back( x );
        std::sort( v.begin(), v.end() ); v.erase( std::unique( v.begin(), v.end() ), v.end() );
        std::vector< Counted > const c( v.begin(), v.end() ); long const k = v.size();
        Counts const d = cost( [&]() { if( op == 4 ) a.removeFromSet( i, c[ 0 ] ); else a.removeFromSet( i, c.begin(), c.end() ); } ); for( int x : v ) m[ i ].erase( x );
        AT_MOST( touched( d ), C * ( len + k ) + K, "removing ", k, " from ", len ); AT_MOST( d.compared, C * ( k > 1 ? len + k : 0 ) + k * found( len ) + K, "comparisons removing ", k, " from ", len ); CHECK_EQ( d.allocated, 0L ); break;
      }
      case 5: { Counted const c( s.range( 0, domain ) ); Counts const d = cost( [&]() { CHECK_EQ( a.contains( i, c ), m[ i ].count( c.x ) == 1 ); } ); AT_MOST( d.compared, found( len ), "comparisons looking for a value among ", len ); CHECK_EQ( touched( d ) + d.allocated, 0L ); break; }
      case 6:
        FREE( ( [&]() { AoS b( std::move( a ) ); a = std::move( b ); auto const v = a.toView(); auto const w = a.toViewConst(); auto const x = w; CHECK_EQ( long( x.size() + v.size() ), 2 * size ); } ), "moving and views" );
        break;
      default:
        // Sorted and unique already: the values are taken over, there and back.
        {
          AoA b; AoS c;
          FREE( ( [&]() { b.assimilate( std::move( a ) ); c.assimilate( std::move( b ), LvArray::sortedArrayManipulation::SORTED_UNIQUE ); a = std::move( c ); } ), "assimilating" );
        }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
    for( long k = 0; k < long( m.size() ); ++k ) CHECK_EQ( long( a.sizeOfSet( k ) ), long( m[ k ].size() ), "size of set ", k );
  }
  if( large ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- matrices
void crsCosts( Src & s )
{
  using M = LvArray::CRSMatrix< Counted, int, IX, MallocBuffer >;
  int const cols = s.boolean() ? 40 : 400;
  long const rows = s.range< long >( 1, 6 );
  long const alive = now.live;
  M a( rows, cols, s.range( 0, 20 ) );
  std::vector< std::set< int > > m( rows );
  std::size_t n = 0;
  bool large = false;
  while( s.more( n, 24, 14 ) )
  {
    Span sp( s ); ++n;
    long const i = s.range< long >( 0, rows - 1 ), len = m[ i ].size(); long all = 0; for( auto const & r : m ) all += r.size();
    if( len > 40 ) large = true;
    int const op = s.weighted( { 4, 3, 3, 2, 4, 2, 2, 1 } );
    LOG( s, "operation " << op << " on row " << i << " with " << len << " of " << all );
    switch( op )
    {
      case 0: case 1:
      {
        auto const v = someSorted( s, op == 0 ? bigLength( s, 80 ) : 1, cols - 1 ); long const k = v.size(); std::vector< Counted > const e( k, Counted( 1 ) ); bool const fits = len + k <= long( a.nonZeroCapacity( i ) );
        Counts const d = cost( [&]() { if( op == 1 ) a.insertNonZero( i, v[ 0 ], e[ 0 ] ); else a.insertNonZeros( i, v.data(), e.data(), k ); } ); m[ i ].insert( v.begin(), v.end() );
        AT_MOST( touched( d ), C * ( fits ? len + k : all + k ) + K, "inserting ", k, " entries into ", len, " of ", all ); if( fits ) CHECK_EQ( d.allocated, 0L ); break;
      }
      case 2: case 3:
      {
        auto const v = someSorted( s, op == 2 ? bigLength( s, 60 ) : 1, cols - 1 ); long const k = v.size();
        Counts const d = cost( [&]() { if( op == 3 ) a.removeNonZero( i, v[ 0 ] ); else a.removeNonZeros( i, v.data(), k ); } ); for( int x : v ) m[ i ].erase( x );
        AT_MOST( touched( d ), C * ( len + k ) + K, "removing ", k, " entries from ", len ); CHECK_EQ( d.allocated, 0L ); break;
      }
      case 4:
      {
        std::vector< int > v; for( int x : m[ i ] ) if( s.boolean( 0.4 ) ) v.push_back( x );
        std::vector< Counted > const e( v.size(), Counted( 1 ) ); auto const w = a.toViewConstSizes();
        int const how = s.range( 0, 2 );
        Counts const d = cost( [&]() { if( how == 0 ) w.addToRow< RAJA::seq_atomic >( i, v.data(), e.data(), v.size() ); else if( how == 1 ) w.addToRowBinarySearch< RAJA::seq_atomic >( i, v.data(), e.data(), v.size() ); else w.addToRowLinearSearch< RAJA::seq_atomic >( i, v.data(), e.data(), v.size() ); } );
        CHECK_EQ( d.added, long( v.size() ), "additions" ); CHECK_EQ( touched( d ) + d.allocated, 0L, "objects made, copied, moved or destroyed, and allocations" ); break;
      }
      case 5: { Counted const c( 3 ); Counts const d = cost( [&]() { a.toViewConstSizes().setValues< RAJA::loop_exec >( c ); } ); AT_MOST( touched( d ), C * all + K, "setValues" ); CHECK_EQ( d.allocated, 0L ); break; }
      case 6:
        FREE( ( [&]() { M b( std::move( a ) ); a = std::move( b ); auto const v = a.toView(); auto const w = a.toViewConst(); auto const p = a.toSparsityPatternView(); auto const c = a.toViewConstSizes(); long sum = 0; for( long r = 0; r < rows; ++r ) for( Counted const & t : w.getEntries( r ) ) sum += t.x; CHECK( sum >= 0 && v.numRows() == p.numRows() && c.numColumns() == cols ); } ), "moving, views and access" );
        break;
      default: { Counts const d = cost( [&]() { a.compress(); } ); AT_MOST( touched( d ), C * all + K, "compress" ); CHECK_EQ( d.allocated, 0L ); break; }
    }
    for( long r = 0; r < rows; ++r ) CHECK_EQ( long( a.numNonZeros( r ) ), long( m[ r ].size() ), "entries of row ", r );
    AT_MOST( now.live - alive, 4, "allocations alive" );
  }
  if( large ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- growing
/// Values added one at a time: the capacity grows by a factor, so that the number of times it does is logarithmic.
void growthCosts( Src & s )
{
  int const kind = s.range( 0, 8 );
  bool const many = ( kind == 0 || kind == 2 || kind == 3 || kind == 8 ) && s.boolean( 0.02 );
  long const count = many ? s.range< long >( 20000, 100000 ) : s.boolean( 0.3 ) ? s.range< long >( 500, 2500 ) : s.range< long >( 1, 500 );
  long const before = s.length( 20 );            // arrays, sets or rows in front and behind
  long const start = s.boolean() ? 0 : s.range( 1, 60 );
  LOG( s, "kind " << kind << ", " << count << " values, " << before << " others, initial capacity " << start );
  // Growing by a quarter each time takes 3.2 lg( n ) steps.
  double const growths = 5 + 3.3 * lg( count );
  auto const measure = [&]( auto && add, long others, char const * what )
  {
    long grown = 0, work = 0;
    for( long i = 0; i < count; ++i ) { Counts const d = cost( [&]() { add( i ); } ); grown += d.allocated > 0; work += touched( d ); }
    AT_MOST( grown, 3 * growths, "allocations of ", count, " ", what );
    AT_MOST( work, 40 * count + growths * 8 * others + 100, "work of ", count, " ", what );
  };
  int const order = s.range( 0, 1 );
  if( kind == 0 ) { LvArray::Array< Counted, 1, RAJA::PERM_I, IX, MallocBuffer > a; a.reserve( start ); measure( [&]( long i ) { a.emplace_back( int( i ) ); }, 0, "emplace_back" ); CHECK_EQ( long( a.size() ), count ); }
  else if( kind == 1 ) { LvArray::SortedArray< Counted, IX, MallocBuffer > a; a.reserve( start ); measure( [&]( long i ) { a.insert( Counted( int( i ) ) ); }, 0, "insertions into a SortedArray" ); CHECK_EQ( long( a.size() ), count ); }
  else if( kind == 2 )
  {
    AoA a( 2 * before + 1, 3 ); for( long k = 0; k < 2 * before + 1; ++k ) a.emplaceBack( k, 1 );
    a.setCapacityOfArray( before, start + 1 );
    long grown = 0, work = 0, cap = a.capacityOfArray( before );
    for( long i = 0; i < count; ++i ) { work += touched( cost( [&]() { a.emplaceBack( before, int( i ) ); } ) ); if( long( a.capacityOfArray( before ) ) != cap ) { cap = a.capacityOfArray( before ); ++grown; } }
    AT_MOST( grown, growths, "times array ", before, " grew for ", count, " emplaceBack" );
    AT_MOST( work, 40 * count + growths * 8 * 2 * before + 100, "work of ", count, " emplaceBack" );
  }
  else if( kind == 3 ) { AoA a; a.reserve( start ); long const k = s.range( 0, 4 ); measure( [&]( long ) { a.appendArray( k ); }, 0, "arrays appended" ); CHECK_EQ( long( a.size() ), count ); }
  else if( kind == 4 )
  {
    AoS a( 2 * before + 1, 3 ); for( long k = 0; k < 2 * before + 1; ++k ) a.insertIntoSet( k, Counted( -1 ) );
    long grown = 0, work = 0, cap = a.capacityOfSet( before );
    for( long i = 0; i < count; ++i ) { work += touched( cost( [&]() { a.insertIntoSet( before, Counted( int( i ) ) ); } ) ); if( long( a.capacityOfSet( before ) ) != cap ) { cap = a.capacityOfSet( before ); ++grown; } }
    AT_MOST( grown, growths, "times set ", before, " grew for ", count, " insertions" );
    AT_MOST( work, 40 * count + growths * 8 * 2 * before + 100, "work of ", count, " insertions at the end of a set" );
  }
  else if( kind == 5 ) { AoS a; measure( [&]( long ) { a.appendSet( start ); }, 0, "sets appended" ); CHECK_EQ( long( a.size() ), count ); }
  else if( kind == 6 )
  {
    LvArray::CRSMatrix< Counted, int, IX, MallocBuffer > a( 2 * before + 1, 1 << 20, 3 ); for( long k = 0; k < 2 * before + 1; ++k ) a.insertNonZero( k, 0, Counted( 1 ) );
    long grown = 0, work = 0, cap = a.nonZeroCapacity( before );
    for( long i = 0; i < count; ++i ) { Counted const c( 1 ); work += touched( cost( [&]() { a.insertNonZero( before, int( i + 1 ), c ); } ) ); if( long( a.nonZeroCapacity( before ) ) != cap ) { cap = a.nonZeroCapacity( before ); ++grown; } }
    AT_MOST( grown, growths, "times row ", before, " grew for ", count, " insertions" );
    AT_MOST( work, 40 * count + growths * 8 * 2 * before + 100, "work of ", count, " insertions at the end of a row" );
  }
  else if( kind == 7 )
  {
    LvArray::SparsityPattern< int, IX, MallocBuffer > a( 2 * before + 1, 1 << 20, 3 );
    long grown = 0, cap = a.nonZeroCapacity( before );
    for( long i = 0; i < count; ++i ) { a.insertNonZero( before, int( i + 1 ) ); if( long( a.nonZeroCapacity( before ) ) != cap ) { cap = a.nonZeroCapacity( before ); ++grown; } }
    AT_MOST( grown, growths, "times row ", before, " of a pattern grew for ", count, " insertions" );
  }
  else
  {
    // Batches of the same size: ranges appended at the end.
    LvArray::Array< Counted, 1, RAJA::PERM_I, IX, MallocBuffer > a; std::vector< Counted > const c( 1 + order * 2, Counted( 1 ) );
    measure( [&]( long ) { a.insert( a.size(), c.begin(), c.end() ); }, 0, "ranges inserted at the end" );
  }
  s.label( "kind " + std::to_string( kind ) );
  if( count > 100 ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- sorting
void sortCosts( Src & s )
{
  long const n = bigLength( s, 1500 );
  int const shape = s.range( 0, 7 );
  std::vector< int > v( n );
  int const few = s.range( 1, 5 );
  for( long i = 0; i < n; ++i ) v[ i ] = shape == 0 ? int( i ) : shape == 1 ? int( n - i ) : shape == 2 ? 7 : shape == 3 ? int( i < n / 2 ? i : n - i ) : shape == 4 ? int( i % 2 ? i : n - i ) : shape == 5 ? s.range( 0, few ) : shape == 6 ? int( ( i * 7919 ) % ( n + 1 ) ) : s.range( 0, 100000 );
  std::vector< Counted > c( v.begin(), v.end() );
  LOG( s, n << " values of shape " << shape );
  bool const unique = s.boolean();
  long left = n;
  Counts const d = cost( [&]() { if( unique ) left = LvArray::sortedArrayManipulation::makeSortedUnique( c.begin(), c.end() ); else LvArray::sortedArrayManipulation::makeSorted( c.begin(), c.end() ); } );
  AT_MOST( d.compared, 6 * n * lg( n ) + 64, "comparisons sorting ", n, " values" );
  AT_MOST( touched( d ), 16 * n * lg( n ) + 64, "work sorting ", n, " values" );
  std::sort( v.begin(), v.end() ); if( unique ) v.erase( std::unique( v.begin(), v.end() ), v.end() );
  CHECK_EQ( left, long( v.size() ) );
  for( long i = 0; i < left; ++i ) CHECK_EQ( c[ i ].x, v[ i ] );
  if( n > 200 ) s.nontrivial();
}

Registrar r1( "cost.array", arrayCosts, 1500, "the array held more than 100 values", true );
Registrar r2( "cost.dimensions", multiCosts, 1500, "more than 60 values before and after the resize", true );
Registrar r3( "cost.sorted", sortedCosts, 1500, "the set held more than 64 values", true );
Registrar r4( "cost.aoa", aoaCosts, 1500, "more than 200 values in more than 4 arrays", true );
Registrar r5( "cost.aos", aosCosts, 1500, "more than 150 values in more than 2 sets", true );
Registrar r6( "cost.crs", crsCosts, 1500, "a row held more than 40 entries", true );
Registrar r7( "cost.growth", growthCosts, 400, "more than 100 values were added one at a time", true );
Registrar r8( "cost.sort", sortCosts, 600, "more than 200 values were sorted" );
}

// The buffers allocate with malloc and free, these are linked in their place.
extern "C"
{
void * __real_malloc( std::size_t );
void * __real_realloc( void *, std::size_t );
void __real_free( void * );
void * __wrap_malloc( std::size_t n ) { ++now.allocated; ++now.live; return __real_malloc( n ); }
void * __wrap_realloc( void * p, std::size_t n ) { ++now.allocated; if( !p ) ++now.live; return __real_realloc( p, n ); }
void __wrap_free( void * p ) { if( p ) --now.live; __real_free( p ); }
}
