// C10 find, contains, insert and remove on sorted unique ranges, with callbacks that keep companion data.
#include "sortedArrayManipulation.hpp"
#include "elem.hpp"
#include "lv.hpp"
#include <algorithm>
#include <list>
#include <map>
#include <set>
using namespace pbt;
using namespace lv;
namespace sam = LvArray::sortedArrayManipulation;
namespace am = LvArray::arrayManipulation;

namespace
{
/// A sorted range and companion data in blocks of exactly their size, as a matrix row holds columns and entries.
template< typename T, typename D > struct Row
{
  T * keys = nullptr; D * data = nullptr; std::ptrdiff_t size = 0, cap = 0;
  ~Row() { am::destroy( keys, size ); am::destroy( data, size ); std::free( keys ); std::free( data ); }
  void reserve( std::ptrdiff_t n, bool always )
  {
    if( n <= cap && !always ) return;
    if( n < size ) n = size;
    T * k = static_cast< T * >( std::malloc( static_cast< std::size_t >( n ) * sizeof( T ) + ( n == 0 ) ) ); D * d = static_cast< D * >( std::malloc( static_cast< std::size_t >( n ) * sizeof( D ) + ( n == 0 ) ) );
    for( std::ptrdiff_t i = 0; i < size; ++i ) { new ( k + i ) T( std::move( keys[ i ] ) ); keys[ i ].~T(); new ( d + i ) D( std::move( data[ i ] ) ); data[ i ].~D(); }
    std::free( keys ); std::free( data );
    keys = k; data = d; cap = n;
  }
};

/// Mirrors on the companion data what the callbacks say happened to the keys.
template< typename T, typename D > struct CB
{
  Row< T, D > & row; std::vector< int > const & values; bool realloc; int * increments;
  T * incrementSize( T * const p, std::ptrdiff_t const n )
  {
    CHECK( p == row.keys || row.size == 0, "incrementSize received another range" );
    CHECK( n >= 0, "incrementSize by ", n );
    ++*increments;
    row.reserve( row.size + n, realloc );
    return row.keys;
  }
  void insert( std::ptrdiff_t const pos ) { am::emplace( row.data, row.size, pos, mk< D >( values[ 0 ] ) ); }
  void set( std::ptrdiff_t const pos, std::ptrdiff_t const v ) { new ( row.data + pos ) D( mk< D >( values.at( static_cast< std::size_t >( v ) ) ) ); }
  void insert( std::ptrdiff_t const nLeft, std::ptrdiff_t const v, std::ptrdiff_t const pos, std::ptrdiff_t const prev )
  {
    am::shiftUp( row.data, prev, pos, nLeft );
    new ( row.data + pos + nLeft - 1 ) D( mk< D >( values.at( static_cast< std::size_t >( v ) ) ) );
  }
  void remove( std::ptrdiff_t const pos ) { am::erase( row.data, row.size, pos ); }
  void remove( std::ptrdiff_t const nRemoved, std::ptrdiff_t const cur, std::ptrdiff_t const next ) { am::shiftDown( row.data, next, cur + 1, nRemoved ); }
};

template< typename T, typename D > void compare( Row< T, D > const & r, std::map< int, int > const & m, char const * what )
{
  CHECK_EQ( r.size, static_cast< std::ptrdiff_t >( m.size() ), what );
  std::ptrdiff_t i = 0;
  for( auto const & kv : m )
  {
    CHECK_EQ( val( r.keys[ i ] ), kv.first, "key ", i, " after ", what );
    CHECK_EQ( val( r.data[ i ] ), kv.second, "companion of key ", kv.first, " after ", what );
    ++i;
  }
}

/// A sorted unique batch: runs inside, between, before and after the existing keys.
std::vector< int > batch( Src & s, std::map< int, int > const & m, int domain, long f )
{
  std::set< int > r;
  std::size_t const n = s.length( 14 * f );
  std::vector< int > keys; for( auto const & kv : m ) keys.push_back( kv.first );
  for( std::size_t i = 0; i < n; ++i )
  {
    if( !keys.empty() && s.boolean( 0.35 ) ) r.insert( keys[ s.choose( keys.size() - 1 ) ] );
    else r.insert( static_cast< int >( s.range( -2, domain ) ) );
  }
  return std::vector< int >( r.begin(), r.end() );
}

template< typename T, typename D > void history( Src & s )
{
  resetLedger();
  long const f = s.large( 60 );
  int const domain = 4 + static_cast< int >( s.choose( 60 * f ) );
  int next = 1000, ops = 0;
  {
    Row< T, D > row;
    std::map< int, int > m;
    if( s.boolean( 0.1 ) ) row.reserve( 0, true );
    LOG( s, "domain " << domain );
    while( s.more( static_cast< std::size_t >( ops ), 40, 14 ) )
    {
      Span sp( s );
      ++ops;
      bool const realloc = s.boolean( 0.3 );
      std::vector< int > values { next };
      int increments = 0;
      CB< T, D > cb { row, values, realloc, &increments };
      char const * name;
      switch( s.weighted( { 3, 3, 2, 3, 2, 1 } ) )
      {
        case 0:
        {
          name = "insert one"; int const k = static_cast< int >( s.range( -2, domain ) ); ++next;
          LOG( s, name << " " << k );
          bool const expected = m.emplace( k, values[ 0 ] ).second;
          T const key = mk< T >( k );
          bool const r = sam::insert( row.keys, row.size, key, cb );
          row.size += r;
          CHECK_EQ( r, expected, "result of inserting ", k );
          break;
        }
        case 1:
        {
          name = "insert batch"; auto const b = batch( s, m, domain, f );
          values.clear(); std::ptrdiff_t expected = 0;
          for( int k : b ) { values.push_back( next++ ); expected += m.emplace( k, values.back() ).second; }
          { std::ostringstream o; for( int k : b ) o << " " << k; LOG( s, name << o.str() ); }
          std::vector< T > src; src.reserve( b.size() ); for( int k : b ) src.emplace_back( mk< T >( k ) );
          std::ptrdiff_t r;
          if( s.boolean() ) r = sam::insert( row.keys, row.size, src.begin(), src.end(), cb );
          else if( s.boolean() ) { std::list< T > const l( src.begin(), src.end() ); r = sam::insert( row.keys, row.size, l.begin(), l.end(), cb ); }
          else { std::set< T > const l( src.begin(), src.end() ); r = sam::insert( row.keys, row.size, l.begin(), l.end(), cb ); }
          row.size += r;
          CHECK_EQ( r, expected, "values inserted" );
          break;
        }
        case 2:
        {
          name = "remove one"; int const k = !m.empty() && s.boolean( 0.6 ) ? std::next( m.begin(), static_cast< long >( s.choose( m.size() - 1 ) ) )->first : static_cast< int >( s.range( -2, domain ) );
          LOG( s, name << " " << k );
          bool const expected = m.erase( k ) != 0;
          T const key = mk< T >( k );
          bool const r = sam::remove( row.keys, row.size, key, cb );
          row.size -= r;
          CHECK_EQ( r, expected, "result of removing ", k );
          break;
        }
        case 3:
        {
          name = "remove batch"; auto const b = batch( s, m, domain, f );
          { std::ostringstream o; for( int k : b ) o << " " << k; LOG( s, name << o.str() ); }
          std::ptrdiff_t expected = 0; for( int k : b ) expected += static_cast< std::ptrdiff_t >( m.erase( k ) );
          std::vector< T > src; src.reserve( b.size() ); for( int k : b ) src.emplace_back( mk< T >( k ) );
          std::ptrdiff_t r;
          if( s.boolean() ) r = sam::remove( row.keys, row.size, src.begin(), src.end(), cb );
          else { std::list< T > const l( src.begin(), src.end() ); r = sam::remove( row.keys, row.size, l.begin(), l.end(), cb ); }
          CHECK_EQ( r, expected, "values removed" );
          // The callbacks leave the last r companions moved out of, for the caller to destroy.
          am::destroy( row.data + row.size - r, r );
          row.size -= r;
          break;
        }
        case 4:
        {
          name = "find and contains"; int const k = static_cast< int >( s.range( -3, domain + 1 ) );
          LOG( s, name << " " << k );
          T const key = mk< T >( k );
          std::ptrdiff_t const pos = sam::find( static_cast< T const * >( row.keys ), row.size, key );
          CHECK_EQ( pos, static_cast< std::ptrdiff_t >( std::distance( m.begin(), m.lower_bound( k ) ) ), "position of ", k );
          CHECK_EQ( sam::contains( static_cast< T const * >( row.keys ), row.size, key ), m.count( k ) != 0, "contains ", k );
          break;
        }
        default:
        {
          // The forms without callbacks, on a copy with spare room.
          name = "without callbacks";
          auto const b = batch( s, m, domain, f );
          LOG( s, name << " batch of " << b.size() );
          std::ptrdiff_t const n = row.size + static_cast< std::ptrdiff_t >( b.size() );
          T * p = static_cast< T * >( std::malloc( static_cast< std::size_t >( n ) * sizeof( T ) + 1 ) );
          am::uninitializedCopy( row.keys, row.keys + row.size, p );
          std::vector< T > src; src.reserve( b.size() ); for( int k : b ) src.emplace_back( mk< T >( k ) );
          std::map< int, int > mm = m; for( int k : b ) mm.emplace( k, 0 );
          std::ptrdiff_t size = row.size;
          if( s.boolean() ) size += sam::insert( p, size, src.begin(), src.end() );
          else for( auto const & k : src ) size += sam::insert( p, size, k );
          bool const removeThem = s.boolean();
          if( removeThem ) { size -= sam::remove( p, size, src.begin(), src.end() ); for( int k : b ) mm.erase( k ); }
          std::vector< int > got; for( std::ptrdiff_t i = 0; i < size; ++i ) got.push_back( val( p[ i ] ) );
          std::vector< int > want; for( auto const & kv : mm ) want.push_back( kv.first );
          am::destroy( p, size ); std::free( p );
          CHECK( got == want, "keys after batch insertion ", ( removeThem ? "and removal" : "" ), " without callbacks" );
        }
      }
      s.label( name );
      compare( row, m, name );
      if( isTracked< T > ) checkLedger( row.size * ( isTracked< D > ? 2 : 1 ), name );
    }
  }
  if( isTracked< T > ) checkLedger( 0, "destruction" );
  if( ops >= 3 ) s.nontrivial();
}
Registrar r1( "sorted_int", history< int, int >, 10000, "history of at least three insertions, removals and queries, keys and companions compared to a map after each" );
Registrar r2( "sorted_tracked", history< Tracked, Tracked >, 6000, "as sorted_int with element lifetimes recorded" );
Registrar r4( "sorted_long_string", history< long, std::string >, 5000, "as sorted_int, companions that own memory", true );
Registrar r4x( "sorted_placed", history< Placed, Placed >, 4000, "as sorted_int with elements whose copying does more than copy bytes" );

/// Searches in ranges sorted by other orders and with duplicates.
void search( Src & s )
{
  std::vector< int > v; std::size_t const n = s.length( 200 );
  int const domain = 1 + static_cast< int >( s.choose( 300 ) );
  for( std::size_t i = 0; i < n; ++i ) v.push_back( static_cast< int >( s.choose( static_cast< std::uint64_t >( domain ) ) ) );
  bool const descending = s.boolean( 0.4 );
  if( descending ) std::sort( v.begin(), v.end(), std::greater< int >() ); else std::sort( v.begin(), v.end() );
  if( n > 1 ) s.nontrivial();
  s.label( descending ? "descending" : "ascending" );
  LOG( s, "search in " << n << " values" );
  std::vector< int > const exact( v );   // exactly sized block
  for( int q = 0; q < 8; ++q )
  {
    int const k = static_cast< int >( s.range( -1, domain + 1 ) );
    std::ptrdiff_t want, pos; bool has;
    if( descending )
    {
      want = std::lower_bound( v.begin(), v.end(), k, std::greater< int >() ) - v.begin();
      pos = sam::find( exact.data(), static_cast< std::ptrdiff_t >( n ), k, sam::greater< int >() );
      has = sam::contains( exact.data(), static_cast< std::ptrdiff_t >( n ), k, sam::greater< int >() );
    }
    else
    {
      want = std::lower_bound( v.begin(), v.end(), k ) - v.begin();
      pos = sam::find( exact.data(), static_cast< std::ptrdiff_t >( n ), k );
      has = sam::contains( exact.data(), static_cast< std::ptrdiff_t >( n ), k );
    }
    CHECK_EQ( pos, want, "position of ", k );
    CHECK_EQ( has, std::find( v.begin(), v.end(), k ) != v.end(), "contains ", k );
  }
}
Registrar r5( "search", search, 6000, "ranges of at least two values, ascending or descending, with duplicates" );
}
