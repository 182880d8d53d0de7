// C40: sizes, offsets and indices up to what the index type can hold.
// Memory that is not touched costs nothing, so the histories work at the far end of containers with more than 2^31
// values; with a short index type the same histories reach the end of the index type with ordinary sizes.
#include "arr.hpp"
#include "ragged.hpp"
#include "SortedArray.hpp"
#include "memcpy.hpp"
#include "sliceHelpers.hpp"
#include <sys/mman.h>
#include <fstream>
using namespace pbt;
using namespace lv;
using LvArray::MallocBuffer;
using std::ptrdiff_t;
namespace sam = LvArray::sortedArrayManipulation;

namespace
{
/// Is this much address space, and are so many bytes of memory, to be had? When not the case is skipped.
bool room( Src & s, double bytes, double touched )
{
  void * volatile const p = std::malloc( static_cast< std::size_t >( bytes ) );
  bool ok = p != nullptr;
  std::free( p );
  if( ok && touched > 0 )
  {
    std::ifstream f( "/proc/meminfo" );
    std::string k; double v = 0; std::string unit;
    while( f >> k >> v >> unit ) if( k == "MemAvailable:" ) { ok = v * 1024 > 3 * touched; break; }
  }
  if( !ok ) s.label( "not enough memory" );
  return ok;
}
template< typename IX > constexpr long LIMIT = static_cast< long >( std::numeric_limits< IX >::max() );

/// How many values lie before the part of the container the history works on; at least `left` more fit.
template< typename IX > long farAway( Src & s, long left, double bytes = 1 )
{
  long v;
  if( sizeof( IX ) < 4 ) v = s.range( 0, 3 ) == 0 ? s.range< long >( 16300, 16400 ) : s.range< long >( 0, 3 ) == 0 ? s.range< long >( 100, LIMIT< IX > - left ) : LIMIT< IX > - left - s.range< long >( 0, 300 );
  else if( sizeof( IX ) == 4 ) v = s.boolean() ? ( 1l << 30 ) - 100 + s.range< long >( 0, 200 ) : LIMIT< IX > - left - s.range< long >( 0, 300 );
  else if( bytes > 4 ) v = ( 1l << 31 ) - 100 + s.range< long >( 0, 400 );
  else v = ( s.range( 0, 2 ) == 2 ? ( 1l << 32 ) : ( 1l << 31 ) ) - 100 + s.range< long >( 0, 400 ) + ( s.range( 0, 3 ) == 0 ? s.range< long >( 0, 1l << 30 ) : 0 );
  s.label( v > ( 1l << 31 ) ? "beyond 2^31" : v > ( 1l << 30 ) - 100 ? "beyond 2^30" : "near the end of short" );
  return v;
}

/// 4 kB, so that the bytes pass 2^32 with some million of values.
struct Wide
{
  int x, y; char pad[ 4088 ];
  Wide( int v = 0 ): x( v ), y( ~v ) {}
  bool operator==( Wide const & o ) const { return x == o.x && y == o.y; }
};
inline int num( char c ) { return c; }
inline int num( double d ) { return static_cast< int >( d ); }
inline int num( int d ) { return d; }
inline int num( Wide const & w ) { CHECK_EQ( w.y, ~w.x, "half a value was moved" ); return w.x; }

// ------------------------------------------------------------------------------------------------- one dimension
template< typename T, typename IX > void array( Src & s )
{
  using A = LvArray::Array< T, 1, RAJA::PERM_I, IX, MallocBuffer >;
  long const spare = 1500, B = sizeof( T ) == sizeof( Wide ) ? ( 1l << ( 19 + s.range( 0, 2 ) ) ) - 20 + s.range( 0, 40 ) : farAway< IX >( s, spare );
  if( !room( s, 1.0 * ( B + spare ) * sizeof( T ), 0 ) ) return;
  A a;
  long most = LIMIT< IX >;
  if( s.boolean( 0.3 ) && sizeof( IX ) < 4 ) LOG( s, "no reserve" );
  else { LOG( s, "reserve " << B + spare ); a.reserve( B + spare ); most = std::min( most, B + spare ); }
  a.resizeWithoutInitializationOrDestruction( B );
  LOG( s, "resize to " << B );
  std::vector< int > m;
  std::map< long, int > below;
  for( int i = s.range( 0, 6 ); i > 0; --i ) { long const p = s.range( 0, 2 ) == 0 ? B - 1 - s.range( 0, 5 ) : s.range< long >( 0, B - 1 ); int const x = s.range( 1, 99 ); LOG( s, "[" << p << "]=" << x ); a[ p ] = T( x ); below[ p ] = x; }
  std::size_t n = 0;
  while( s.more( n, 40, 14 ) )
  {
    Span sp( s ); ++n;
    long const size = B + m.size(), left = most - size;
    long const p = s.range< long >( 0, m.size() );
    int const x = s.range( 1, 99 );
    int const op = s.weighted( { 3, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1 } );
    LOG( s, "operation " << op << " at " << B + p << " of " << size << ", " << x );
    switch( op )
    {
      case 0: if( left > 0 ) { a.emplace_back( x ); m.push_back( x ); } break;
      case 1: if( left > 0 ) { a.emplace( B + p, x ); m.insert( m.begin() + p, x ); } break;
      case 2: if( !m.empty() ) { long const q = p % m.size(); a.erase( B + q ); m.erase( m.begin() + q ); } break;
      case 3:
      {
        long const k = std::min( left, s.range< long >( 0, 40 ) );
        std::vector< T > v; std::vector< int > w;
        for( long i = 0; i < k; ++i ) { w.push_back( ( x + i ) % 100 ); v.push_back( T( w.back() ) ); }
        a.insert( B + p, v.begin(), v.end() ); m.insert( m.begin() + p, w.begin(), w.end() );
        break;
      }
      case 4: if( !m.empty() ) { a.pop_back(); m.pop_back(); } break;
      case 5: { long const k = s.range< long >( 0, std::min( left + long( m.size() ), 200l ) ); a.resize( B + k ); m.resize( k ); break; }
      case 6: { long const k = s.range< long >( 0, std::min( left + long( m.size() ), 200l ) ); a.resizeDefault( B + k, T( x ) ); m.resize( k, x ); break; }
      case 7: if( !m.empty() ) { long const q = p % m.size(); ( s.boolean() ? a[ B + q ] : a( B + q ) ) = T( x ); m[ q ] = x; } break;
      case 8: { A b( std::move( a ) ); CHECK_EQ( long( a.size() ), 0L ); a = std::move( b ); break; }
      case 9:
      {
        auto const v = a.toViewConst(); auto const sl = v.toSliceConst();
        CHECK_EQ( long( v.size() ), size ); CHECK_EQ( long( sl.size( 0 ) ), size ); CHECK_EQ( long( v.end() - v.begin() ), size );
        CHECK( &v.back() == a.data() + size - 1 ); CHECK( v.end() == a.data() + size );
        for( std::size_t i = 0; i < m.size(); ++i ) { CHECK_EQ( num( v[ B + i ] ), m[ i ] ); CHECK_EQ( num( sl( B + i ) ), m[ i ] ); }
        break;
      }
      default: { long const k = s.range< long >( 0, most ); LOG( s, "reserve " << k ); if( k <= B + spare || sizeof( IX ) < 4 ) a.reserve( k ); }
    }
    CHECK_EQ( long( a.size() ), B + long( m.size() ) ); CHECK_EQ( long( a.size( 0 ) ), B + long( m.size() ) );
    CHECK( a.capacity() >= a.size(), "capacity ", a.capacity() );
    for( std::size_t i = 0; i < m.size(); ++i ) CHECK_EQ( num( a[ B + i ] ), m[ i ], "value ", B + i, " of ", a.size() );
    for( auto const & kv : below ) CHECK_EQ( num( a[ kv.first ] ), kv.second, "value ", kv.first, " of ", a.size() );
  }
  if( n >= 3 && m.size() ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- more dimensions
template< int N, typename PERM, typename IX > void multi( Src & s )
{
  using A = LvArray::Array< char, N, PERM, IX, MallocBuffer >;
  constexpr auto order = RAJA::as_array< PERM >::get();
  Ix< N > d;
  double const total = sizeof( IX ) < 4 ? s.range< long >( 16000, LIMIT< IX > ) : sizeof( IX ) == 4 ? double( s.range< long >( 1l << 30, LIMIT< IX > ) ) : double( s.range< long >( 1l << 31, 1l << 33 ) );
  double rest = total;
  int const big = s.range( 0, N - 1 );
  for( int k = 0; k < N; ++k )
    if( k != big ) { d[ k ] = std::max( 1l, s.boolean() ? s.range< long >( 1, 7 ) : static_cast< long >( std::pow( rest, s.range( 1, 9 ) / 10.0 ) ) ); rest /= d[ k ]; }
  d[ big ] = std::max( 1l, static_cast< long >( rest ) );
  long const size = prod< N >( d );
  LOG( s, str< N >( d ) << " = " << size );
  if( size > LIMIT< IX > || !room( s, size, 0 ) ) return;
  Ix< N > st; { long p = 1; for( int k = N - 1; k >= 0; --k ) { st[ order[ k ] ] = p; p *= d[ order[ k ] ]; } }
  A a;
  auto resize = [&]( auto & x, Ix< N > const & e ) { std::apply( [&]( auto ... v ) { x.resizeWithoutInitializationOrDestruction( v ... ); }, e ); };
  resize( a, d );
  for( int k = 0; k < N; ++k ) { CHECK_EQ( long( a.size( k ) ), d[ k ] ); CHECK_EQ( long( a.strides()[ k ] ), st[ k ] ); CHECK_EQ( long( a.toViewConst().dims()[ k ] ), d[ k ] ); }
  CHECK_EQ( long( a.size() ), size );
  std::map< Ix< N >, int > m;
  auto some = [&]() { Ix< N > i; for( int k = 0; k < N; ++k ) { int const how = s.range( 0, 3 ); i[ k ] = how == 0 ? d[ k ] - 1 - s.range< long >( 0, std::min( d[ k ] - 1, 3l ) ) : how == 1 ? s.range< long >( 0, std::min( d[ k ] - 1, 3l ) ) : s.range< long >( 0, d[ k ] - 1 ); } return i; };
  std::size_t n = 0;
  auto const v = a.toView(); auto const c = a.toViewConst();
  while( s.more( n, 60, 20 ) )
  {
    Span sp( s ); ++n;
    auto const i = some();
    long off = 0; for( int k = 0; k < N; ++k ) off += i[ k ] * st[ k ];
    int const x = s.range( 1, 99 ), how = s.range( 0, 3 );
    LOG( s, str< N >( i ) << "=" << x << " by " << how );
    CHECK_EQ( long( linear< N >( a, i ) ), off ); CHECK_EQ( long( linear< N >( c, i ) ), off );
    if( how == 0 ) at< N >( v, i ) = x;
    else if( how == 1 ) chain< N >( v, i ) = x;
    else if( how == 2 ) a.data()[ off ] = x;
    else if constexpr( N > 1 ) { auto const sl = a.toSlice(); auto const & in = sl[ i[ 0 ] ]; chain< N - 1 >( in, tail< N, 1 >( i ) ) = x; }
    else a[ i[ 0 ] ] = x;
    m[ i ] = x;
    for( auto const & kv : m )
    {
      CHECK_EQ( int( at< N >( c, kv.first ) ), kv.second, "value ", str< N >( kv.first ) );
      CHECK_EQ( int( chain< N >( c, kv.first ) ), kv.second, "value ", str< N >( kv.first ) );
    }
    CHECK( &at< N >( v, i ) == a.data() + off, "address of ", str< N >( i ) );
  }
  if( s.boolean( 0.5 ) )
  {
    // Change the dimension with the largest stride by a little: only the values added are touched.
    int const dim = order[ 0 ];
    if( st[ dim ] < 4000 )
    {
      a.setSingleParameterResizeIndex( dim );
      long const delta = s.range< long >( 0, 4 ) - 2, len = std::max( 0l, d[ dim ] + delta );
      long const want = size / d[ dim ] * len;
      if( want <= LIMIT< IX > && ( want <= size || sizeof( IX ) < 4 ) )
      {
        LOG( s, "dimension " << dim << " to " << len );
        if( s.boolean() ) a.resize( len ); else a.resizeDefault( len, 7 );
        CHECK_EQ( long( a.size() ), want ); CHECK_EQ( long( a.size( dim ) ), len );
        for( auto const & kv : m ) if( kv.first[ dim ] < len ) CHECK_EQ( int( at< N >( a, kv.first ) ), kv.second, "value ", str< N >( kv.first ), " after a resize" );
        s.label( "resized a dimension" );
      }
    }
  }
  if constexpr( N == 2 && std::is_same< PERM, RAJA::PERM_IJ >::value )
    if( a.size( 0 ) == d[ 0 ] && d[ 1 ] < 4000 && d[ 0 ] > 1 )
    {
      // Copy one row onto another.
      std::array< IX, 1 > const from { IX( m.empty() ? 0 : m.rbegin()->first[ 0 ] ) }, to { IX( s.boolean() ? 0 : d[ 0 ] / 2 ) };
      LOG( s, "copy row " << from[ 0 ] << " to " << to[ 0 ] );
      if( from[ 0 ] != to[ 0 ] )
      {
        LvArray::memcpy< 1, 1 >( a.toView(), to, a.toViewConst(), from );
        for( auto it = m.begin(); it != m.end(); ) if( it->first[ 0 ] == long( to[ 0 ] ) ) it = m.erase( it ); else ++it;
        auto const old = m; for( auto const & kv : old ) if( kv.first[ 0 ] == long( from[ 0 ] ) ) m[ { long( to[ 0 ] ), kv.first[ 1 ] } ] = kv.second;
        for( auto const & kv : m ) CHECK_EQ( int( a( kv.first[ 0 ], kv.first[ 1 ] ) ), kv.second, "value ", str< N >( kv.first ), " after a row was copied" );
        s.label( "copied a row" );
      }
    }
  {
    // The same values as others: the unit stride dimension gets longer or shorter.
    constexpr int usd = order[ N - 1 ];
    if( a.size( usd ) == d[ usd ] && a.size() == size && d[ usd ] % 4 == 0 && s.boolean() )
    {
      LvArray::ArrayView< int, N, usd, IX, MallocBuffer > const w( a.toView() );
      for( int k = 0; k < N; ++k ) CHECK_EQ( long( w.size( k ) ), k == usd ? d[ k ] / 4 : d[ k ], "dimension ", k, " as wider values" );
      LvArray::ArrayView< char, N, usd, IX, MallocBuffer > const back( w );
      for( int k = 0; k < N; ++k ) { CHECK_EQ( long( back.size( k ) ), d[ k ] ); CHECK_EQ( long( back.strides()[ k ] ), st[ k ] ); }
      for( auto const & kv : m )
      {
        CHECK_EQ( int( at< N >( back, kv.first ) ), kv.second );
        auto i = kv.first; int const b = i[ usd ] % 4; i[ usd ] /= 4;
        CHECK_EQ( ( at< N >( w, i ) >> 8 * b ) & 0xff, kv.second, "value ", str< N >( kv.first ), " as a part of a wider one" );
      }
      s.label( "as wider values" );
    }
  }
  { A b( std::move( a ) ); for( auto const & kv : m ) if( kv.first[ order[ 0 ] ] < long( b.size( order[ 0 ] ) ) ) CHECK_EQ( int( at< N >( b, kv.first ) ), kv.second ); }
  if( m.size() > 3 ) s.nontrivial();
}
template< typename IX > void multiAny( Src & s )
{
  switch( s.range( 0, 6 ) )
  {
    case 0: multi< 2, RAJA::PERM_IJ, IX >( s ); break;
    case 1: multi< 2, RAJA::PERM_JI, IX >( s ); break;
    case 2: multi< 3, RAJA::PERM_IJK, IX >( s ); break;
    case 3: multi< 3, RAJA::PERM_KIJ, IX >( s ); break;
    case 4: multi< 3, RAJA::PERM_JKI, IX >( s ); break;
    case 5: multi< 4, RAJA::PERM_IJKL, IX >( s ); break;
    default: multi< 4, RAJA::PERM_LKJI, IX >( s );
  }
}

// ------------------------------------------------------------------------------------------------- ragged containers
/// Capacities of the rows of a container: one of them is huge, and the sum fits into the index type.
template< typename IX > std::vector< IX > hugeCapacities( Src & s, long & total, double bytes )
{
  long const k = s.range< long >( 1, 6 ), at = s.range< long >( 0, k - 1 );
  std::vector< IX > c( k );
  long small = 0;
  for( long i = 0; i < k; ++i ) { c[ i ] = s.range< long >( 0, 8 ); small += c[ i ]; }
  long const B = farAway< IX >( s, 400, bytes );
  if( k > 1 && s.boolean( 0.3 ) ) { long const other = ( at + 1 ) % k; c[ at ] = B / 2; c[ other ] = B - B / 2; }
  else c[ at ] = B;
  total = 0; for( IX x : c ) total += x;
  for( IX x : c ) LOG( s, "capacity " << x );
  return c;
}

/// A value that owns something: it has to be moved and destroyed as such.
struct Owner
{
  int * p;
  static inline long live = 0;
  Owner( int x = 0 ): p( new int( x ) ) { ++live; }
  Owner( Owner const & o ): p( new int( *o.p ) ) { ++live; }
  Owner( Owner && o ): p( o.p ) { o.p = nullptr; ++live; }
  Owner & operator=( Owner const & o ) { if( this != &o ) { delete p; p = new int( *o.p ); } return *this; }
  Owner & operator=( Owner && o ) { std::swap( p, o.p ); return *this; }
  ~Owner() { delete p; --live; }
};
inline int num( Owner const & o ) { return *o.p; }

template< typename T, typename IX > void arrayOfArraysOf( Src & s )
{
  using A = LvArray::ArrayOfArrays< T, IX, MallocBuffer >;
  A a;
  long total;
  auto caps = hugeCapacities< IX >( s, total, sizeof( T ) );
  bool const same = s.boolean( 0.3 ); if( same ) { long const c = total / caps.size(); std::fill( caps.begin(), caps.end(), c ); total = c * caps.size(); }
  constexpr long SPARE = sizeof( IX ) < 4 ? 0 : 1l << 20;
  long const reserved = std::min( total + SPARE, LIMIT< IX > );
  if( !room( s, 1.0 * reserved * sizeof( T ), 0 ) ) return;
  if( same && s.boolean( sizeof( IX ) < 4 ? 0.5 : 0.01 ) ) { LOG( s, "resize to " << caps.size() << " of " << caps[ 0 ] ); a.resize( caps.size(), caps[ 0 ] ); CHECK( long( a.valueCapacity() ) >= total, "capacity of the values ", a.valueCapacity() ); a.reserveValues( reserved ); }
  else { a.reserveValues( reserved ); a.template resizeFromCapacities< RAJA::seq_exec >( caps.size(), caps.data() ); }
  std::vector< std::vector< int > > m( caps.size() );
  std::size_t n = 0;
  long const most = SPARE ? reserved : LIMIT< IX >;
  while( s.more( n, 40, 16 ) )
  {
    Span sp( s ); ++n;
    if( m.empty() ) break;
    long const i = s.range< long >( 0, m.size() - 1 ), size = m[ i ].size(), j = s.range< long >( 0, size );
    long const end = a.toViewConst().getOffsets()[ m.size() ];
    // What fits into the index type after the array has got the capacity it needs.
    auto possible = [&]( long newSize ) { return end + std::max( 0l, newSize - long( a.capacityOfArray( i ) ) ) <= most; };
    int const x = s.range( 1, 99 );
    std::vector< int > v; for( long k = s.range< long >( 0, 12 ); k > 0; --k ) v.push_back( s.range( 1, 99 ) );
    std::vector< T > const w( v.begin(), v.end() );
    int const op = s.weighted( { 4, 3, 3, 3, 3, 2, 2, 1, 1, 1, 1, 2, 1, 1 } );
    LOG( s, "operation " << op << " on array " << i << "[" << j << "] of " << size << " (capacity " << a.capacityOfArray( i ) << ", end " << end << "), " << x << ", " << v.size() );
    switch( op )
    {
      case 0: if( possible( size + 1 ) ) { a.emplaceBack( i, x ); m[ i ].push_back( x ); } break;
      case 1: if( possible( size + 1 ) ) { a.emplace( i, j, x ); m[ i ].insert( m[ i ].begin() + j, x ); } break;
      case 2: if( possible( size + v.size() ) ) { a.insertIntoArray( i, j, w.begin(), w.end() ); m[ i ].insert( m[ i ].begin() + j, v.begin(), v.end() ); } break;
      case 3: if( possible( size + v.size() ) ) { a.appendToArray( i, w.begin(), w.end() ); m[ i ].insert( m[ i ].end(), v.begin(), v.end() ); } break;
      case 4: if( size ) { long const q = j % size, k = s.range< long >( 0, size - q ); a.eraseFromArray( i, q, k ); m[ i ].erase( m[ i ].begin() + q, m[ i ].begin() + q + k ); } break;
      case 5: { long const k = s.range< long >( 0, 30 ); if( possible( k ) ) { a.resizeArray( i, k, T( x ) ); m[ i ].resize( k, x ); } break; }
      case 6:
      {
        long const k = s.boolean() ? s.range< long >( 0, 30 ) : a.capacityOfArray( i ) + s.range< long >( 0, 20 ) - 10;
        if( k >= 0 && end + k - a.capacityOfArray( i ) <= most ) { LOG( s, "capacity " << k ); a.setCapacityOfArray( i, k ); CHECK_EQ( long( a.capacityOfArray( i ) ), k ); if( long( m[ i ].size() ) > k ) m[ i ].resize( k ); }
        break;
      }
      case 7: if( end + long( v.size() ) <= most && m.size() < 12 ) { a.appendArray( w.begin(), w.end() ); m.push_back( v ); } break;
      case 8: if( end + long( v.size() ) <= most && m.size() < 12 ) { a.insertArray( i, w.begin(), w.end() ); m.insert( m.begin() + i, v ); } break;
      case 9: if( m.size() > 1 && ( SPARE == 0 || s.boolean() ) ) { a.eraseArray( i ); m.erase( m.begin() + i ); } break;
      case 10: if( s.boolean( 0.3 ) ) { a.compress(); CHECK_EQ( long( a.toViewConst().getOffsets()[ m.size() ] ), [&]() { long t = 0; for( auto const & r : m ) t += r.size(); return t; } () ); s.label( "compressed" ); } break;
      case 11: { A const b( a ); for( std::size_t r = 0; r < m.size(); ++r ) for( std::size_t k = 0; k < m[ r ].size(); ++k ) CHECK_EQ( num( b( r, k ) ), m[ r ][ k ], "of a copy" ); if( s.boolean() ) a = b; break; }
      case 12: { long const k = s.range< long >( 1, m.size() + 1 ), cap = s.range< long >( 0, 9 ); if( end + cap <= most ) { a.resize( k, cap ); m.resize( k ); } break; }
      default: { A b( std::move( a ) ); a = std::move( b ); auto const v1 = a.toView(); if( size && s.boolean() ) { v1.eraseFromArray( i, 0 ); m[ i ].erase( m[ i ].begin() ); } }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
    auto const c = a.toViewConst();
    checkLayout( c, m.size(), a.valueCapacity() );
    for( std::size_t r = 0; r < m.size(); ++r )
    {
      CHECK_EQ( long( a.sizeOfArray( r ) ), long( m[ r ].size() ), "array ", r );
      CHECK( a.capacityOfArray( r ) >= a.sizeOfArray( r ), "capacity ", a.capacityOfArray( r ) );
      for( std::size_t k = 0; k < m[ r ].size(); ++k ) { CHECK_EQ( num( a( r, k ) ), m[ r ][ k ], "value ", k, " of array ", r ); CHECK_EQ( num( c[ r ][ k ] ), m[ r ][ k ] ); }
    }
  }
  if( n >= 3 ) s.nontrivial();
}

template< typename IX > void arrayOfArrays( Src & s )
{
  if( s.range( 0, 2 ) != 2 ) return arrayOfArraysOf< char, IX >( s );
  long const before = Owner::live;
  arrayOfArraysOf< Owner, IX >( s );
  CHECK_EQ( Owner::live, before, "values left behind" );
}

/// An ArrayOfSets, a SparsityPattern or a CRSMatrix with a row of a huge capacity.
template< typename IX > struct Sets
{
  using A = LvArray::ArrayOfSets< int, IX, MallocBuffer >;
  using COL = int;
  static constexpr bool VALUES = false, PATTERN = false;
  static constexpr double BYTES = 4;
};
template< typename C, typename IX > struct Pattern
{
  using A = LvArray::SparsityPattern< C, IX, MallocBuffer >;
  using COL = C;
  static constexpr bool VALUES = false, PATTERN = true;
  static constexpr double BYTES = sizeof( C );
};
template< typename T, typename C, typename IX > struct Matrix
{
  using A = LvArray::CRSMatrix< T, C, IX, MallocBuffer >;
  using COL = C;
  static constexpr bool VALUES = true, PATTERN = true;
  static constexpr double BYTES = sizeof( C ) + sizeof( T );
};

template< typename K, typename IX > void rows( Src & s )
{
  using COL = typename K::COL;
  typename K::A a;
  long total;
  auto const caps = hugeCapacities< IX >( s, total, K::BYTES );
  constexpr long SPARE = sizeof( IX ) < 4 ? 0 : 1l << 20;
  long const reserved = std::min( total + SPARE, LIMIT< IX > ), most = SPARE ? reserved : LIMIT< IX >;
  if( !room( s, reserved * K::BYTES, 0 ) ) return;
  long const maxCols = std::min( LIMIT< IX >, LIMIT< COL > );
  long const cols = std::max( s.range( 0, 2 ) == 0 ? maxCols : s.range( 0, 1 ) ? maxCols - s.range< long >( 0, 100 ) : s.range< long >( 1, maxCols ), std::min( total, maxCols ) );
  if( total > cols ) return;
  LOG( s, cols << " columns" );
  if constexpr( K::PATTERN ) { a.reserveNonZeros( reserved ); a.template resizeFromRowCapacities< RAJA::seq_exec >( caps.size(), cols, caps.data() ); }
  else { a.reserveValues( reserved ); a.template resizeFromCapacities< RAJA::seq_exec >( caps.size(), caps.data() ); }
  std::vector< std::map< long, int > > m( caps.size() );
  auto const column = [&]() -> long
  {
    switch( s.range( 0, 4 ) )
    {
      case 0: return s.range< long >( 0, std::min( cols - 1, 20l ) );
      case 1: return cols - 1 - s.range< long >( 0, std::min( cols - 1, 20l ) );
      case 2: { long const p = 1l << s.range( 0, 62 ); return std::max( 0l, std::min( cols - 1, p - 3 + s.range< long >( 0, 6 ) ) ); }
      case 3: { long const p = std::min( cols - 1, 1l << 31 ); return p - s.range< long >( 0, std::min( p, 20l ) ); }
      default: return s.range< long >( 0, cols - 1 );
    }
  };
  auto const capacity = [&]( long r ) -> long { if constexpr( K::PATTERN ) return a.nonZeroCapacity( r ); else return a.capacityOfSet( r ); };
  std::size_t n = 0;
  while( s.more( n, 40, 16 ) )
  {
    Span sp( s ); ++n;
    long const i = s.range< long >( 0, m.size() - 1 ), size = m[ i ].size();
    long const end = a.toViewConst().getOffsets()[ m.size() ];
    auto const possible = [&]( long newSize ) { return end + std::max( 0l, newSize - capacity( i ) ) <= most; };
    int const op = s.weighted( { 4, 3, 3, 3, 2, 1, 1, 1, 1, 2, 1 } ), x = s.range( 1, 99 );
    long const c = size && s.range( 0, 3 ) == 0 ? std::next( m[ i ].begin(), s.range< long >( 0, size - 1 ) )->first : column();
    std::map< long, int > batch; for( int k = s.range( 0, 10 ); k > 0; --k ) batch[ size && s.range( 0, 3 ) == 0 ? std::next( m[ i ].begin(), s.range< long >( 0, size - 1 ) )->first : column() ] = s.range( 1, 99 );
    std::vector< COL > bc; std::vector< double > dummy;
    for( auto const & kv : batch ) bc.push_back( kv.first );
    LOG( s, "operation " << op << " on row " << i << " of " << size << " (capacity " << capacity( i ) << ", end " << end << "), column " << c << ", " << bc.size() );
    auto grown = [&]() { auto u = m[ i ]; u.insert( batch.begin(), batch.end() ); return long( u.size() ); };
    switch( op )
    {
      case 0:
        if( possible( size + 1 ) )
        {
          bool r;
          if constexpr( K::VALUES ) r = a.insertNonZero( i, c, x ); else if constexpr( K::PATTERN ) r = a.insertNonZero( i, c ); else r = a.insertIntoSet( i, c );
          CHECK_EQ( r, m[ i ].emplace( c, x ).second, "inserted ", c );
        }
        break;
      case 1:
        if( possible( grown() ) )
        {
          long const before = m[ i ].size(); long r;
          if constexpr( K::VALUES ) { std::vector< std::decay_t< decltype( a.getEntries( 0 )[ 0 ] ) > > e; for( auto const & kv : batch ) e.push_back( kv.second ); r = a.insertNonZeros( i, bc.data(), e.data(), bc.size() ); }
          else if constexpr( K::PATTERN ) r = a.insertNonZeros( i, bc.begin(), bc.end() ); else r = a.insertIntoSet( i, bc.begin(), bc.end() );
          m[ i ].insert( batch.begin(), batch.end() ); CHECK_EQ( r, long( m[ i ].size() ) - before, "number inserted" );
        }
        break;
      case 2:
      {
        bool r;
        if constexpr( K::PATTERN ) r = a.removeNonZero( i, c ); else r = a.removeFromSet( i, c );
        CHECK_EQ( r, m[ i ].erase( c ) == 1, "removed ", c );
        break;
      }
      case 3:
      {
        long r, want = 0;
        if constexpr( K::VALUES ) r = a.removeNonZeros( i, bc.data(), bc.size() ); else if constexpr( K::PATTERN ) r = a.removeNonZeros( i, bc.begin(), bc.end() ); else r = a.removeFromSet( i, bc.begin(), bc.end() );
        for( COL b : bc ) want += m[ i ].erase( b );
        CHECK_EQ( r, want, "number removed" );
        break;
      }
      case 4:
      {
        long const k = s.boolean() ? s.range< long >( 0, 30 ) : capacity( i ) + s.range< long >( 0, 20 ) - 10;
        if( k >= 0 && k <= cols && end + k - capacity( i ) <= most )
        {
          LOG( s, "capacity " << k );
          if constexpr( K::PATTERN ) a.setRowCapacity( i, k ); else a.setCapacityOfSet( i, k );
          CHECK_EQ( capacity( i ), k );
          while( long( m[ i ].size() ) > k ) m[ i ].erase( std::prev( m[ i ].end() ) );
        }
        break;
      }
      case 5: if( m.size() < 10 && end + 5 <= most ) { long const k = s.range( 0, 3 ) == 0 ? s.range< long >( 0, most - end ) : s.range( 0, 5 ); if( k <= cols ) { LOG( s, "capacity " << k ); if constexpr( K::VALUES ) break; else if constexpr( K::PATTERN ) a.appendRow( k ); else a.appendSet( k ); m.emplace_back(); CHECK_EQ( capacity( m.size() - 1 ), k ); } } break;
      case 6: if( s.boolean( 0.3 ) ) { a.compress(); long t = 0; for( auto const & r : m ) t += r.size(); CHECK_EQ( long( a.toViewConst().getOffsets()[ m.size() ] ), t ); s.label( "compressed" ); } break;
      case 7: { typename K::A b( std::move( a ) ); a = std::move( b ); break; }
      case 8:
      {
        typename K::A const b( a );
        if constexpr( K::PATTERN ) { for( std::size_t r = 0; r < m.size(); ++r ) { long k = 0; for( auto const & kv : m[ r ] ) CHECK_EQ( long( b.getColumns( r )[ k++ ] ), kv.first, "of a copy" ); } }
        if( s.boolean() ) a = b;
        break;
      }
      case 9:
        if constexpr( K::VALUES )
        {
          std::vector< COL > ac; for( auto & kv : m[ i ] ) if( s.boolean( 0.6 ) ) ac.push_back( kv.first );
          using T = std::decay_t< decltype( a.getEntries( 0 )[ 0 ] ) >;
          std::vector< T > ae; for( COL b : ac ) { ae.push_back( 1 ); ++m[ i ][ b ]; }
          int const how = s.range( 0, 3 ); LOG( s, "add to " << ac.size() << " by " << how );
          auto const v = a.toViewConstSizes();
          if( how == 0 ) v.template addToRow< RAJA::seq_atomic >( i, ac.data(), ae.data(), ac.size() );
          else if( how == 1 ) v.template addToRowBinarySearch< RAJA::seq_atomic >( i, ac.data(), ae.data(), ac.size() );
          else if( how == 2 ) v.template addToRowLinearSearch< RAJA::seq_atomic >( i, ac.data(), ae.data(), ac.size() );
          else { std::reverse( ac.begin(), ac.end() ); v.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( i, ac.data(), ae.data(), ac.size() ); }
        }
        break;
      default:
        if constexpr( K::VALUES ) if( sizeof( IX ) < 4 || s.boolean( 0.02 ) ) { if( SPARE && !room( s, 1, 2.0 * reserved * K::BYTES ) ) break; a.zero(); for( auto & r : m ) for( auto & kv : r ) kv.second = 0; s.label( "zeroed" ); }
    }
    if constexpr( K::PATTERN ) { CHECK_EQ( long( a.numRows() ), long( m.size() ) ); CHECK_EQ( long( a.numColumns() ), cols ); }
    else CHECK_EQ( long( a.size() ), long( m.size() ) );
    auto const v = a.toViewConst();
    { long nnz = 0; for( auto const & r : m ) nnz += r.size(); if constexpr( K::PATTERN ) CHECK_EQ( long( a.numNonZeros() ), nnz ); }
    long prev = 0;
    for( std::size_t r = 0; r < m.size(); ++r )
    {
      long const off = v.getOffsets()[ r ]; CHECK( off >= prev, "row ", r, " starts at ", off, " before ", prev ); prev = off + long( m[ r ].size() );
      CHECK( prev <= long( v.getOffsets()[ r + 1 ] ), "row ", r, " extends past its capacity" );
      long k = 0;
      if constexpr( K::PATTERN )
      {
        CHECK_EQ( long( a.numNonZeros( r ) ), long( m[ r ].size() ), "row ", r );
        for( auto const & kv : m[ r ] ) { CHECK_EQ( long( v.getColumns( r )[ k ] ), kv.first, "column ", k, " of row ", r ); if constexpr( K::VALUES ) CHECK_EQ( num( v.getEntries( r )[ k ] ), kv.second, "entry of column ", kv.first, " of row ", r ); ++k; }
        CHECK( v.empty( r ) == m[ r ].empty() );
      }
      else { CHECK_EQ( long( a.sizeOfSet( r ) ), long( m[ r ].size() ), "set ", r ); for( auto const & kv : m[ r ] ) CHECK_EQ( long( v( r, k++ ) ), kv.first, "value of set ", r ); }
    }
    if constexpr( K::PATTERN ) CHECK_EQ( bool( a.empty( i, c ) ), m[ i ].count( c ) == 0, "column ", c ); else CHECK_EQ( bool( a.contains( i, c ) ), m[ i ].count( c ) == 1, "value ", c );
  }
  if constexpr( K::PATTERN && !K::VALUES ) if( s.boolean() )
  {
    // The pattern of a matrix with as many non zeros.
    auto const empties = m;
    LvArray::CRSMatrix< char, COL, IX, MallocBuffer > b;
    if( room( s, reserved, 0 ) && ( sizeof( IX ) < 4 || s.boolean( 0.02 ) ) && room( s, 1, 2.0 * reserved ) )
    {
      b.template assimilate< RAJA::seq_exec >( std::move( a ) ); s.label( "became a matrix" );
      CHECK_EQ( long( b.numRows() ), long( m.size() ) ); CHECK_EQ( long( b.numColumns() ), cols );
      for( std::size_t r = 0; r < m.size(); ++r ) { CHECK_EQ( long( b.numNonZeros( r ) ), long( m[ r ].size() ) ); long k = 0; for( auto const & kv : m[ r ] ) { CHECK_EQ( long( b.getColumns( r )[ k ] ), kv.first ); CHECK_EQ( int( b.getEntries( r )[ k ] ), 0 ); ++k; } }
    }
  }
  if( n >= 3 ) s.nontrivial();
}

// ------------------------------------------------------------------------------------------------- near the end of short
/// A sorted array with nearly as many values as the index type can count.
void shortSorted( Src & s )
{
  LvArray::SortedArray< int, short, MallocBuffer > a;
  std::set< int > m;
  int const B = s.range( 16000, 32767 );
  std::vector< int > first; for( int i = 0; i < B; ++i ) first.push_back( 2 * i );
  LOG( s, B << " values" );
  if( s.boolean() ) { LOG( s, "reserve" ); a.reserve( B + s.range( 0, 32767 - B ) ); }
  CHECK_EQ( long( a.insert( first.begin(), first.end() ) ), long( B ) ); m.insert( first.begin(), first.end() );
  std::size_t n = 0;
  while( s.more( n, 20, 10 ) )
  {
    Span sp( s ); ++n;
    int const size = m.size(), op = s.range( 0, 5 ), x = s.range( 0, 2 * B + 3 );
    std::set< int > batch; for( int k = s.range( 0, 200 ); k > 0; --k ) batch.insert( s.range( 0, 3 ) == 0 ? 2 * B + s.range( 0, 200 ) : s.range( 0, 2 * B + 3 ) );
    LOG( s, "operation " << op << " with " << x << " or " << batch.size() << " values, size " << size );
    switch( op )
    {
      case 0: if( size < 32767 ) CHECK_EQ( a.insert( x ), m.insert( x ).second ); break;
      case 1: CHECK_EQ( a.remove( x ), m.erase( x ) == 1 ); break;
      case 2: { auto u = m; u.insert( batch.begin(), batch.end() ); if( u.size() <= 32767 ) { CHECK_EQ( long( a.insert( batch.begin(), batch.end() ) ), long( u.size() - m.size() ) ); m = u; } break; }
      case 3: { long want = 0; for( int b : batch ) want += m.erase( b ); CHECK_EQ( long( a.remove( batch.begin(), batch.end() ) ), want ); break; }
      case 4: CHECK_EQ( a.contains( x ), m.count( x ) == 1 ); CHECK_EQ( a.toView().count( x ), m.count( x ) == 1 ); break;
      default: { LvArray::SortedArray< int, short, MallocBuffer > const b( a ); CHECK_EQ( long( b.size() ), long( m.size() ) ); a = b; }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
  }
  long k = 0; for( int y : m ) { CHECK_EQ( a[ k ], y, "value ", k ); ++k; }
  if( n >= 3 ) s.nontrivial();
}

/// Nearly as many arrays, sets or rows as the index type can count.
template< typename A > void shortMany( Src & s, A & a )
{
  constexpr bool ARRAYS = std::is_same< A, LvArray::ArrayOfArrays< char, short, MallocBuffer > >::value, SETS = std::is_same< A, LvArray::ArrayOfSets< int, short, MallocBuffer > >::value;
  int const B = s.range( 0, 2 ) == 0 ? 16383 + s.range( 0, 4 ) - 2 : s.range( 16000, 32700 ); // one more offset than arrays
  LOG( s, B << " arrays" );
  std::vector< std::vector< int > > m( B );
  if constexpr( ARRAYS || SETS ) a.resize( B ); else a.resize( B, 300, 0 );
  std::size_t n = 0; long values = 0;
  while( s.more( n, 20, 10 ) )
  {
    Span sp( s ); ++n;
    int const op = s.range( 0, 5 ), i = s.range( 0, 1 ) ? m.size() - 1 - s.range( 0, 10 ) : s.range< int >( 0, m.size() - 1 ), k = s.range( 0, 5 );
    LOG( s, "operation " << op << " on " << i << " of " << m.size() << ", " << k );
    switch( op )
    {
      case 0:
        if( m.size() < 32766 ) { if constexpr( ARRAYS ) a.appendArray( k ); else if constexpr( SETS ) a.appendSet( k ); else if constexpr( std::is_same< A, LvArray::SparsityPattern< int, short, MallocBuffer > >::value ) a.appendRow( k ); else break; m.emplace_back( ARRAYS ? k : 0 ); values += ARRAYS ? k : 0; }
        break;
      case 1:
        for( int j = 0; j < k; ++j )
        {
          if constexpr( ARRAYS ) { a.emplaceBack( i, j ); m[ i ].push_back( j ); ++values; }
          else { bool r; if constexpr( SETS ) r = a.insertIntoSet( i, 10 * j ); else if constexpr( std::is_same< A, LvArray::SparsityPattern< int, short, MallocBuffer > >::value ) r = a.insertNonZero( i, 10 * j ); else r = a.insertNonZero( i, 10 * j, 1 ); bool const isNew = !std::count( m[ i ].begin(), m[ i ].end(), 10 * j ); CHECK_EQ( r, isNew ); if( isNew ) { m[ i ].push_back( 10 * j ); std::sort( m[ i ].begin(), m[ i ].end() ); ++values; } }
        }
        break;
      case 2: if constexpr( ARRAYS ) { a.eraseArray( i ); m.erase( m.begin() + i ); } else if constexpr( SETS ) { a.eraseSet( i ); m.erase( m.begin() + i ); } break;
      case 3: if( m.size() < 32766 ) { if constexpr( ARRAYS ) { std::vector< char > const v( k, 7 ); a.insertArray( i, v.begin(), v.end() ); m.insert( m.begin() + i, std::vector< int >( k, 7 ) ); } else if constexpr( SETS ) { a.insertSet( i, k ); m.insert( m.begin() + i, std::vector< int >() ); } } break;
      case 4: a.compress(); break;
      default: { A const b( a ); a = b; }
    }
    if constexpr( ARRAYS || SETS ) { CHECK_EQ( long( a.size() ), long( m.size() ) ); CHECK( a.capacity() >= a.size(), "capacity ", a.capacity(), " of ", a.size() ); }
    else CHECK_EQ( long( a.numRows() ), long( m.size() ) );
    auto const v = a.toViewConst();
    for( std::size_t r = 0; r < m.size(); ++r )
    {
      if constexpr( ARRAYS ) { CHECK_EQ( long( a.sizeOfArray( r ) ), long( m[ r ].size() ), "array ", r ); for( std::size_t j = 0; j < m[ r ].size(); ++j ) if( m[ r ][ j ] ) CHECK_EQ( int( v( r, j ) ), m[ r ][ j ] ); }
      else if constexpr( SETS ) { CHECK_EQ( long( a.sizeOfSet( r ) ), long( m[ r ].size() ), "set ", r ); for( std::size_t j = 0; j < m[ r ].size(); ++j ) CHECK_EQ( int( v( r, j ) ), m[ r ][ j ] ); }
      else { CHECK_EQ( long( a.numNonZeros( r ) ), long( m[ r ].size() ), "row ", r ); for( std::size_t j = 0; j < m[ r ].size(); ++j ) CHECK_EQ( int( v.getColumns( r )[ j ] ), m[ r ][ j ] ); }
    }
  }
  if( n >= 3 ) s.nontrivial();
}
void shortManyAny( Src & s )
{
  switch( s.range( 0, 3 ) )
  {
    case 0: { LvArray::ArrayOfArrays< char, short, MallocBuffer > a; shortMany( s, a ); break; }
    case 1: { LvArray::ArrayOfSets< int, short, MallocBuffer > a; shortMany( s, a ); break; }
    case 2: { LvArray::SparsityPattern< int, short, MallocBuffer > a; shortMany( s, a ); break; }
    default: { LvArray::CRSMatrix< double, int, short, MallocBuffer > a; shortMany( s, a ); }
  }
}

// ------------------------------------------------------------------------------------------------- sorted ranges
/// Address space of this many bytes, all zero; only what is touched needs memory.
struct Region
{
  explicit Region( std::size_t n ): size( n ), p( static_cast< char * >( mmap( nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) ) ) {}
  ~Region() { if( p != MAP_FAILED ) munmap( p, size ); }
  std::size_t size; char * p;
};

/// A range that is negative at its start, zero nearly everywhere and positive at its end.
void sortedRange( Src & s )
{
  long const zeros = farAway< ptrdiff_t >( s, 1000 );
  std::vector< int > neg, pos;
  for( int x = -128; x < 0; ++x ) if( s.boolean( 0.2 ) ) neg.push_back( x );
  for( int x = 1; x < 128; ++x ) if( s.boolean( 0.3 ) ) pos.push_back( x );
  Region region( zeros + 1000 );
  if( region.p == MAP_FAILED ) { s.label( "not enough memory" ); return; }
  char * const p = region.p;
  long const B = neg.size() + zeros;
  LOG( s, neg.size() << " negative values, " << zeros << " zeros, " << pos.size() << " positive values" );
  for( std::size_t i = 0; i < neg.size(); ++i ) p[ i ] = neg[ i ];
  for( std::size_t i = 0; i < pos.size(); ++i ) p[ B + i ] = pos[ i ];
  std::set< int > m( pos.begin(), pos.end() );
  std::size_t n = 0;
  while( s.more( n, 40, 16 ) )
  {
    Span sp( s ); ++n;
    long const size = B + m.size();
    char const x = s.range( 1, 127 );
    std::set< int > batch; for( int k = s.range( 0, 12 ); k > 0; --k ) batch.insert( s.range( 1, 127 ) );
    std::vector< char > const v( batch.begin(), batch.end() );
    int const op = s.range( 0, 5 );
    LOG( s, "operation " << op << " with " << int( x ) << " or " << v.size() << " values, size " << size );
    switch( op )
    {
      case 0:
      {
        int const f = s.range( -128, 127 ); char const c = f;
        long const want = f <= 0 ? long( std::lower_bound( neg.begin(), neg.end(), f ) - neg.begin() ) : B + long( std::distance( m.begin(), m.lower_bound( f ) ) );
        CHECK_EQ( long( sam::find( p, size, c ) ), want, "position of ", f );
        bool const in = f == 0 || std::binary_search( neg.begin(), neg.end(), f ) || m.count( f );
        CHECK_EQ( sam::contains( p, size, c ), in, "contains ", f );
        break;
      }
      case 1: CHECK_EQ( sam::insert( p, size, x, sam::CallBacks< char >() ), m.insert( x ).second, "inserted" ); break;
      case 2: CHECK_EQ( sam::remove( p, size, x, sam::CallBacks< char >() ), m.erase( x ) == 1, "removed" ); break;
      case 3: { long const before = m.size(); long const r = sam::insert( p, size, v.begin(), v.end(), sam::CallBacks< char >() ); m.insert( batch.begin(), batch.end() ); CHECK_EQ( r, long( m.size() ) - before, "number inserted" ); break; }
      case 4: { long want = 0; for( int b : batch ) want += m.erase( b ); CHECK_EQ( long( sam::remove( p, size, v.begin(), v.end(), sam::CallBacks< char >() ) ), want, "number removed" ); break; }
      default: break;
    }
    long k = 0; for( int y : m ) { CHECK_EQ( int( p[ B + k ] ), y, "value ", B + k ); ++k; }
    CHECK_EQ( int( p[ B - 1 ] ), 0 ); CHECK_EQ( int( p[ neg.size() ] ), 0 );
  }
  if( n >= 3 && m.size() ) s.nontrivial();
}

/// The operations that look at every value.
void wholeRange( Src & s )
{
  long const zeros = ( 1l << 31 ) + s.range< long >( 0, 1000 );
  if( !room( s, 4.0 * zeros, 2.0 * zeros ) ) return;
  int const op = s.range( 0, 7 );
  std::vector< int > pos; for( int x = 1; x < 128; ++x ) if( x == 127 || s.boolean( 0.3 ) ) { pos.push_back( x ); if( s.boolean( 0.3 ) ) pos.push_back( x ); }
  Region region( zeros + 1000 );
  char * const p = region.p; long const size = zeros + pos.size();
  for( std::size_t i = 0; i < pos.size(); ++i ) p[ zeros + i ] = pos[ i ];
  LOG( s, "operation " << op << " of " << zeros << " zeros and " << pos.size() << " values" );
  if( op == 0 )
  {
    CHECK( sam::isSorted( p, p + size ) ); p[ size - 1 ] = -1; CHECK( !sam::isSorted( p, p + size ) );
    CHECK( !sam::isSortedUnique( p + zeros - 1, p + size ) );
  }
  else if( op == 1 )
  {
    std::vector< int > want( 1, 0 ); want.insert( want.end(), pos.begin(), pos.end() ); want.erase( std::unique( want.begin(), want.end() ), want.end() );
    CHECK_EQ( long( sam::removeDuplicates( p, p + size ) ), long( want.size() ) );
    for( std::size_t i = 0; i < want.size(); ++i ) CHECK_EQ( int( p[ i ] ), want[ i ] );
  }
  else if( op == 2 )
  {
    // Each value once.
    LvArray::ArrayView< char const, 1, 0, ptrdiff_t, MallocBuffer > none; ( void ) none;
    LvArray::typeManipulation::CArray< ptrdiff_t, 2 > dims { size, 1 }, strides { 1, size };
    LvArray::ArraySlice< char const, 2, 0, ptrdiff_t > const sl( p, dims.data, strides.data );
    long count = 0, sum = 0; LvArray::forValuesInSlice( sl, [&]( char const & c ) { ++count; sum += c; } );
    CHECK_EQ( count, size, "values visited" ); CHECK_EQ( long( sl.size() ), size ); long want = 0; for( int x : pos ) want += x; CHECK_EQ( sum, want );
  }
  else if( op == 6 )
  {
    // More than 2^32 bytes.
    int const n = ( 1 << 29 ) + s.range( 0, 1000 ), how = s.range( 0, 2 ), m = n - 1 - s.range( 0, 100 );
    if( !room( s, 8.0 * n, 8.0 * n ) ) return;
    LOG( s, n << " doubles, " << how );
    LvArray::Array< double, 1, RAJA::PERM_I, int, MallocBuffer > a;
    a.resizeWithoutInitializationOrDestruction( n );
    a[ 3 ] = 1; a[ n - 1 ] = 2; a[ m ] = 3; a[ 1 << 28 ] = 4;
    if( how == 0 ) { a.zero(); CHECK( a[ 3 ] == 0 && a[ n - 1 ] == 0 && a[ m ] == 0 && a[ 1 << 28 ] == 0, "zeroed" ); }
    else if( how == 1 )
    {
      LvArray::Array< double, 1, RAJA::PERM_I, int, MallocBuffer > b;
      b.resizeWithoutInitializationOrDestruction( n );
      LvArray::memcpy( b.toSlice(), a.toSliceConst() );
      CHECK( b[ 3 ] == 1 && b[ n - 1 ] == a[ n - 1 ] && b[ m ] == 3 && b[ 1 << 28 ] == 4, "copied" );
    }
    else
    {
      LvArray::CRSMatrix< double, short, int, MallocBuffer > c;
      int const caps[ 3 ] = { 2, n, 4 };
      c.resizeFromRowCapacities< RAJA::seq_exec >( 3, 9, caps );
      for( int i = 0; i < 3; ++i ) for( int j = 0; j < 2; ++j ) CHECK( c.insertNonZero( i, 2 * j, 1 + i + j ) );
      c.zero();
      for( int i = 0; i < 3; ++i ) for( int j = 0; j < 2; ++j ) { CHECK_EQ( c.getEntries( i )[ j ], 0.0, "row ", i ); CHECK_EQ( int( c.getColumns( i )[ j ] ), 2 * j ); }
    }
  }
  else if( op == 7 )
  {
    // Lengthen or shorten a dimension that isn't the slowest one: every value moves.
    using A = LvArray::Array< char, 3, RAJA::PERM_JIK, ptrdiff_t, MallocBuffer >;
    Ix< 3 > d { s.range< long >( 1, 5 ), s.range< long >( 2, 5 ), 0 }; if( s.boolean() ) std::swap( d[ 0 ], d[ 1 ] );
    long const other = d[ 0 ] * d[ 1 ];
    d[ 2 ] = zeros / other + 1;
    int const dim = s.boolean() ? 2 : 0;
    long const much = s.range( 0, 3 ), end = d[ 2 ];
    if( much == 1 && dim == 2 ) d[ 2 ] = 2;
    long const len = much == 1 && dim == 2 ? end : much == 2 && dim == 2 ? s.range( 1l, 3l ) : std::max( 1l, d[ dim ] + s.range< long >( 0, 2 ) - 1 + ( s.boolean() ? 1 : 0 ) );
    LOG( s, str< 3 >( d ) << ", dimension " << dim << " to " << len );
    A a; a.resizeWithoutInitializationOrDestruction( d[ 0 ], d[ 1 ], d[ 2 ] );
    std::map< Ix< 3 >, int > m;
    for( int n = 0; n < 40; ++n ) { Ix< 3 > i; for( int k = 0; k < 3; ++k ) i[ k ] = s.boolean() ? d[ k ] - 1 - s.range< long >( 0, std::min( 2l, d[ k ] - 1 ) ) : s.range< long >( 0, d[ k ] - 1 ); m[ i ] = s.range( 1, 99 ); a( i[ 0 ], i[ 1 ], i[ 2 ] ) = m[ i ]; }
    a.setSingleParameterResizeIndex( dim ); a.resizeDefault( len, 101 );
    long const before = d[ dim ]; d[ dim ] = len;
    CHECK_EQ( long( a.size() ), d[ 0 ] * d[ 1 ] * d[ 2 ] );
    for( auto const & kv : m ) if( kv.first[ dim ] < len ) CHECK_EQ( int( at< 3 >( a, kv.first ) ), kv.second, "value ", str< 3 >( kv.first ) );
    if( len > before ) for( auto const & kv : m ) { auto i = kv.first; i[ dim ] = len - 1; CHECK_EQ( int( at< 3 >( a, i ) ), 101, "new value ", str< 3 >( i ) ); }
  }
  else if( op == 4 )
  {
    // All of the range at once.
    LvArray::Array< char, 1, RAJA::PERM_I, ptrdiff_t, MallocBuffer > a;
    long const k = s.range( 0, 20 ), at = s.range( 0l, k ); for( int i = 0; i < k; ++i ) a.emplace_back( 100 + i );
    a.insert( at, p, p + size );
    CHECK( a.capacity() >= a.size(), "capacity ", a.capacity() );
    CHECK_EQ( long( a.size() ), size + k );
    for( long i = 0; i < k; ++i ) CHECK_EQ( int( a[ i < at ? i : i + size ] ), 100 + i, "value ", i, " around the range" );
    for( std::size_t i = 0; i < pos.size(); ++i ) CHECK_EQ( int( a[ at + zeros + i ] ), pos[ i ], "value ", i, " at the end of the range" );
    CHECK_EQ( int( a[ at + s.range( 0l, zeros - 1 ) ] ), 0 );
    a.resize( at + 3 ); CHECK_EQ( long( a.size() ), at + 3 ); for( long i = 0; i < at; ++i ) CHECK_EQ( int( a[ i ] ), 100 + i );
    a.reserve( 2 * size ); a.resizeDefault( size, 4 ); CHECK_EQ( int( a.back() ), 4 ); CHECK_EQ( int( a[ at + 4 ] ), 4 );
  }
  else if( op == 5 )
  {
    LvArray::ArrayOfArrays< char, ptrdiff_t, MallocBuffer > a;
    a.resize( 3, 4 ); for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) a.emplaceBack( i, 10 * i + j );
    int const how = s.range( 0, 2 ); long const at = how == 0 ? 3 : s.range( 0, 3 );
    LOG( s, "array 1 gets the range at " << at << " by " << how );
    if( how == 0 ) a.appendToArray( 1, p, p + size );
    else if( how == 1 ) a.insertIntoArray( 1, at, p, p + size );
    else { a.resizeArray( 1, at ); a.appendToArray( 1, p, p + size ); for( long j = at; j < 3; ++j ) a.emplaceBack( 1, 10 + j ); }
    auto verify = [&]( long n, char const * what )
    {
      CHECK_EQ( long( a.sizeOfArray( 1 ) ), n + 3, what );
      checkLayout( a.toViewConst(), 3, a.valueCapacity() );
      for( int i = 0; i < 3; i += 2 ) { CHECK_EQ( long( a.sizeOfArray( i ) ), 3l, what ); for( int j = 0; j < 3; ++j ) CHECK_EQ( int( a( i, j ) ), 10 * i + j, what ); }
      for( long j = 0; j < 3; ++j ) CHECK_EQ( int( a( 1, j < at ? j : j + n ) ), 10 + j, what );
      for( long i = 1; i <= long( std::min< long >( n, pos.size() ) ); ++i ) CHECK_EQ( int( a[ 1 ][ at + n - i ] ), pos[ pos.size() - i ], what );
    };
    verify( size, "after the range was added" );
    int const next = s.range( 0, 5 ); LOG( s, "then " << next );
    if( next == 0 ) { long const k = size - s.range< long >( 0, pos.size() ); a.eraseFromArray( 1, at, k ); verify( size - k, "after most of it was erased" ); }
    else if( next == 4 ) { a.emplaceBack( 0, 3 ); a.emplaceBack( 0, 4 ); CHECK_EQ( int( a( 0, 4 ) ), 4 ); a.resizeArray( 0, 3 ); verify( size, "after an array before it has grown" ); a.setCapacityOfArray( 0, 3 ); verify( size, "after an array before it has got less capacity" ); }
    else if( next == 5 ) { long const k = s.range< long >( 0, pos.size() + 5 ); a.setCapacityOfArray( 1, size + 3 - k ); CHECK_EQ( long( a.sizeOfArray( 1 ) ), size + 3 - k ); CHECK_EQ( int( a( 2, 2 ) ), 22 ); CHECK_EQ( int( a( 0, 2 ) ), 2 ); for( long i = 0; i < long( pos.size() ); ++i ) if( at + zeros + i < size + 3 - k ) CHECK_EQ( int( a( 1, at + zeros + i ) ), pos[ i ] ); }
    else if( next == 1 ) { a.compress(); verify( size, "after compress" ); a.emplaceBack( 1, 77 ); CHECK_EQ( int( a( 1, size + 3 ) ), 77 ); a.resizeArray( 1, size + 3 ); verify( size, "after growing" ); }
    else if( next == 2 ) { a.eraseArray( 0 ); CHECK_EQ( long( a.sizeOfArray( 0 ) ), size + 3 ); CHECK_EQ( int( a( 1, 2 ) ), 22 ); for( std::size_t i = 0; i < pos.size(); ++i ) CHECK_EQ( int( a( 0, at + zeros + i ) ), pos[ i ] ); }
    else { LvArray::ArrayOfArrays< char, ptrdiff_t, MallocBuffer > b( a ); a = b; verify( size, "after copying" ); a.clearArray( 1 ); CHECK_EQ( long( a.sizeOfArray( 1 ) ), 0l ); CHECK_EQ( int( a( 2, 2 ) ), 22 ); }
  }
  else
  {
    LvArray::Array< char, 1, RAJA::PERM_I, ptrdiff_t, MallocBuffer > a, b;
    a.resizeDefault( size, 3 ); a[ size - 1 ] = 5; a[ size / 2 ] = 6;
    a.insert( 0, pos.begin(), pos.end() ); long const k = pos.size();
    CHECK( a.capacity() >= a.size(), "capacity ", a.capacity() );
    CHECK_EQ( long( a.size() ), size + k ); CHECK_EQ( int( a.back() ), 5 ); CHECK_EQ( int( a[ size / 2 + k ] ), 6 ); CHECK_EQ( int( a[ size + k - 2 ] ), 3 );
    for( long i = 0; i < k; ++i ) CHECK_EQ( int( a[ i ] ), pos[ i ] );
    a.erase( 0 ); CHECK_EQ( int( a.back() ), k ? 5 : 5 ); CHECK_EQ( long( a.size() ), size + k - 1 );
    b = a; CHECK_EQ( long( b.size() ), size + k - 1 ); CHECK_EQ( int( b.back() ), 5 ); CHECK_EQ( int( b[ size / 2 + k - 1 ] ), 6 ); CHECK_EQ( int( b[ 1l << 30 ] ), 3 );
    a.zero(); CHECK_EQ( int( a.back() ), 0 ); CHECK_EQ( int( a[ size / 2 + k - 1 ] ), 0 ); CHECK_EQ( int( a.front() ), 0 );
    LvArray::memcpy( a.toSlice(), b.toSliceConst() ); CHECK_EQ( int( a.back() ), 5 ); CHECK_EQ( int( a[ size / 2 + k - 1 ] ), 6 ); CHECK_EQ( int( a[ 1l << 30 ] ), 3 );
    b.template setValues< RAJA::seq_exec >( char( 9 ) ); CHECK_EQ( int( b.back() ), 9 ); CHECK_EQ( int( b.front() ), 9 ); CHECK_EQ( int( b[ size / 2 ] ), 9 );
  }
  s.nontrivial();
}

char const * const RULE = "at least three operations beyond the given size";
Registrar r1( "huge.array", []( Src & s ) { switch( s.range( 0, 4 ) ) { case 0: array< char, short >( s ); break; case 1: array< char, int >( s ); break; case 2: array< Wide, int >( s ); break; case 3: array< Wide, ptrdiff_t >( s ); break; default: array< char, ptrdiff_t >( s ); } }, 8000, RULE, false, false, 120 );
Registrar r2( "huge.dimensions", []( Src & s ) { switch( s.range( 0, 2 ) ) { case 0: multiAny< short >( s ); break; case 1: multiAny< int >( s ); break; default: multiAny< ptrdiff_t >( s ); } }, 8000, "more than three values written and read back", false, false, 120 );
Registrar r3( "huge.arrays", []( Src & s ) { switch( s.range( 0, 2 ) ) { case 0: arrayOfArrays< short >( s ); break; case 1: arrayOfArrays< int >( s ); break; default: arrayOfArrays< ptrdiff_t >( s ); } }, 8000, RULE, false, false, 120 );
Registrar r4( "huge.sets", []( Src & s ) { switch( s.range( 0, 2 ) ) { case 0: rows< Sets< short >, short >( s ); break; case 1: rows< Sets< int >, int >( s ); break; default: rows< Sets< ptrdiff_t >, ptrdiff_t >( s ); } }, 8000, RULE, false, false, 120 );
Registrar r5( "huge.pattern", []( Src & s ) { switch( s.range( 0, 2 ) ) { case 0: rows< Pattern< short, short >, short >( s ); break; case 1: rows< Pattern< ptrdiff_t, int >, int >( s ); break; default: rows< Pattern< ptrdiff_t, ptrdiff_t >, ptrdiff_t >( s ); } }, 8000, RULE, false, false, 120 );
Registrar r6( "huge.matrix", []( Src & s ) { switch( s.range( 0, 2 ) ) { case 0: rows< Matrix< double, int, short >, short >( s ); break; case 1: rows< Matrix< char, ptrdiff_t, int >, int >( s ); break; default: rows< Matrix< char, ptrdiff_t, ptrdiff_t >, ptrdiff_t >( s ); } }, 8000, RULE, false, false, 120 );
Registrar r7( "huge.sorted", sortedRange, 8000, RULE, false, false, 120 );
Registrar r9( "huge.sortedarray", shortSorted, 1500, RULE, false, false, 120 );
Registrar r10( "huge.many", shortManyAny, 3000, RULE, false, false, 120 );
Registrar r8( "huge.whole", wholeRange, 8, "more than 2^31 values were visited", false, false, 120 );
} // namespace
