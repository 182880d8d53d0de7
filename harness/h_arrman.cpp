// C08 raw contiguous sequences: arrayManipulation against std::vector with an object ledger.
#include "arrayManipulation.hpp"
#include "elem.hpp"
#include "lv.hpp"
#include <deque>
#include <iterator>
#include <list>
#include <memory>
using namespace pbt;
using namespace lv;
namespace am = LvArray::arrayManipulation;

namespace
{
/// A sequence in a block of exactly `cap` slots.
template< typename T > struct Block
{
  explicit Block( std::ptrdiff_t c ): cap( c ), raw( static_cast< unsigned char * >( std::malloc( static_cast< std::size_t >( c ) * sizeof( T ) ) ) ) { std::memset( raw, 0xA5, bytes() ); }
  ~Block() { std::free( raw ); }
  std::size_t bytes() const { return static_cast< std::size_t >( cap ) * sizeof( T ); }
  T * ptr() { return reinterpret_cast< T * >( raw ); }
  std::ptrdiff_t cap; unsigned char * raw;
};

template< typename T > void compare( T * p, std::ptrdiff_t n, std::vector< int > const & m, char const * what )
{
  CHECK_EQ( n, static_cast< std::ptrdiff_t >( m.size() ), what );
  for( std::size_t i = 0; i < m.size(); ++i ) CHECK_EQ( val( p[ i ] ), m[ i ], "element ", i, " after ", what );
}

template< typename T > void history( Src & s )
{
  resetLedger();
  std::ptrdiff_t const cap = 1 + static_cast< std::ptrdiff_t >( s.length( 40 * s.large( 60 ) ) );
  Block< T > block( cap );
  T * const p = block.ptr();
  std::vector< int > m;
  std::ptrdiff_t size = 0;
  int next = 1, ops = 0;
  auto freshValues = [&]( std::ptrdiff_t n ) { std::vector< int > v; for( std::ptrdiff_t i = 0; i < n; ++i ) v.push_back( next++ ); return v; };
  LOG( s, "capacity " << cap );
  while( s.more( static_cast< std::size_t >( ops ), 60, 18 ) )
  {
    Span sp( s );
    ++ops;
    std::ptrdiff_t const room = cap - size;
    std::vector< unsigned char > before( block.raw, block.raw + block.bytes() );
    std::ptrdiff_t touched = size;
    char const * name = "";
    switch( s.choose( 12 ) )
    {
      case 0: { if( !room ) break; name = "emplaceBack"; int const v = next++; am::emplaceBack( p, size, mk< T >( v ) ); m.push_back( v ); ++size; break; }
      case 1:
      {
        if( !room ) break; name = "emplace";
        std::ptrdiff_t const i = s.range< std::ptrdiff_t >( 0, size ); int const v = next++;
        T const t = mk< T >( v );
        if( s.boolean() ) am::emplace( p, size, i, t ); else am::emplace( p, size, i, mk< T >( v ) );
        m.insert( m.begin() + i, v ); ++size; break;
      }
      case 2:
      {
        name = "insert";
        std::ptrdiff_t const n = s.range< std::ptrdiff_t >( 0, room ), i = s.range< std::ptrdiff_t >( 0, size );
        auto const v = freshValues( n );
        std::vector< T > src; src.reserve( v.size() ); for( int x : v ) src.emplace_back( mk< T >( x ) );
        if( s.boolean() ) am::insert( p, size, i, src.begin(), n );
        else { std::list< T > l( src.begin(), src.end() ); am::insert( p, size, i, l.begin(), n ); }
        m.insert( m.begin() + i, v.begin(), v.end() ); size += n; break;
      }
      case 3:
      {
        name = "append";
        std::ptrdiff_t const n = s.range< std::ptrdiff_t >( 0, room );
        auto const v = freshValues( n );
        std::vector< T > src; src.reserve( v.size() ); for( int x : v ) src.emplace_back( mk< T >( x ) );
        std::ptrdiff_t r;
        if( s.boolean() ) r = am::append( p, size, src.begin(), src.end() );
        else { std::list< T > l( src.begin(), src.end() ); r = am::append( p, size, l.begin(), l.end() ); }
        CHECK_EQ( r, n, "values appended" );
        m.insert( m.end(), v.begin(), v.end() ); size += n; break;
      }
      case 4:
      {
        if( !size ) break; name = "erase";
        std::ptrdiff_t const i = s.range< std::ptrdiff_t >( 0, size - 1 ), n = s.boolean() ? 1 : s.range< std::ptrdiff_t >( 0, size - i );
        if( n == 1 && s.boolean() ) am::erase( p, size, i ); else am::erase( p, size, i, n );
        m.erase( m.begin() + i, m.begin() + i + n ); size -= n; break;
      }
      case 5: { if( !size ) break; name = "popBack"; am::popBack( p, size ); m.pop_back(); --size; break; }
      case 6:
      {
        name = "resize";
        std::ptrdiff_t const n = s.range< std::ptrdiff_t >( 0, cap );
        if( s.boolean() ) { am::resize( p, size, n ); m.resize( static_cast< std::size_t >( n ), dflt< T >() ); }
        else
        {
          int const v = next++; T const t = mk< T >( v );
          // The arguments initialise every new value, whether they are lvalues or temporaries.
          if( s.boolean() ) am::resize( p, size, n, t ); else am::resize( p, size, n, mk< T >( v ) );
          m.resize( static_cast< std::size_t >( n ), v );
        }
        size = n; break;
      }
      case 7:
      {
        name = "shiftUp";   // Followed by construction in the gap.
        std::ptrdiff_t const n = s.range< std::ptrdiff_t >( 0, room ), i = s.range< std::ptrdiff_t >( 0, size );
        am::shiftUp( p, size, i, n );
        auto const v = freshValues( n );
        for( std::ptrdiff_t k = 0; k < n; ++k ) new ( p + i + k ) T( mk< T >( v[ static_cast< std::size_t >( k ) ] ) );
        m.insert( m.begin() + i, v.begin(), v.end() ); size += n; break;
      }
      case 8:
      {
        if( !size ) break; name = "shiftDown";   // Leaves moved-from values at the end, which the caller destroys.
        std::ptrdiff_t const n = s.range< std::ptrdiff_t >( 0, size ), i = s.range< std::ptrdiff_t >( n, size );
        am::shiftDown( p, size, i, n );
        am::destroy( p + size - n, n );
        m.erase( m.begin() + i - n, m.begin() + i ); size -= n; break;
      }
      case 9:
      {
        name = "uninitializedShift up and down";   // [i, size) moves up leaving no objects behind, then back.
        std::ptrdiff_t const n = s.range< std::ptrdiff_t >( 0, room ), i = s.range< std::ptrdiff_t >( 0, size );
        am::uninitializedShiftUp( p + i, size - i, n );
        if( isTracked< T > ) checkLedger( size, "uninitializedShiftUp" );
        for( std::ptrdiff_t k = i; k < size; ++k ) CHECK_EQ( val( p[ k + n ] ), m[ static_cast< std::size_t >( k ) ], "after uninitializedShiftUp" );
        am::uninitializedShiftDown( p + i + n, size - i, n );
        touched = size + n;
        break;
      }
      case 10:
      {
        name = "uninitializedMove";   // Into a fresh block and back.
        Block< T > other( size ? size : 1 );
        am::uninitializedMove( other.ptr(), size, p );
        am::destroy( p, size );
        compare( other.ptr(), size, m, "uninitializedMove" );
        am::uninitializedMove( p, size, other.ptr() );
        am::destroy( other.ptr(), size );
        break;
      }
      case 11:
      {
        name = "uninitializedCopy";
        Block< T > other( size ? size : 1 );
        am::uninitializedCopy( p, p + size, other.ptr() );
        compare( other.ptr(), size, m, "uninitializedCopy" );
        compare( p, size, m, "uninitializedCopy's source" );
        am::destroy( other.ptr(), size );
        break;
      }
      default: name = "destroy all"; am::destroy( p, size ); m.clear(); size = 0;
    }
    LOG( s, name << " -> size " << size );
    s.label( name );
    compare( p, size, m, name );
    if( isTracked< T > ) checkLedger( size, name );
    // Slots that the operation has no business with.
    std::size_t const first = static_cast< std::size_t >( std::max( touched, size ) ) * sizeof( T );
    CHECK( first >= block.bytes() || std::memcmp( block.raw + first, before.data() + first, block.bytes() - first ) == 0, name, " wrote beyond the sequence" );
    CHECK_EQ( am::iterDistance( p, p + size ), size );
    { std::list< int > l( m.begin(), m.end() ); CHECK_EQ( am::iterDistance( l.begin(), l.end() ), size ); }
  }
  am::destroy( p, size );
  if( isTracked< T > ) checkLedger( 0, "final destroy" );
  if( ops >= 3 ) s.nontrivial();
}
Registrar r1( "sequence_int", history< int >, 6000, "history of at least three operations on an int sequence in a block of exactly its capacity" );
Registrar r2( "sequence_string", history< std::string >, 6000, "as sequence_int with strings, and no allocation may be left", true );
Registrar r3( "sequence_tracked", history< Tracked >, 8000, "as sequence_int with elements whose construction and destruction is recorded by address" );
Registrar r4( "sequence_double", history< double >, 2000, "as sequence_int with doubles" );

void predicates( Src & s )
{
  long const v = s.integer< long >();
  LOG( s, "isPositive( " << v << " )" );
  if( v ) s.nontrivial();
  CHECK_EQ( am::isPositive( v ), v >= 0 );
  CHECK( am::isPositive( static_cast< unsigned long >( v ) ) );
  CHECK_EQ( am::isPositive( static_cast< signed char >( v ) ), static_cast< signed char >( v ) >= 0 );
}
Registrar r6( "sequence_init", history< Init >, 2000, "as sequence_int with elements whose default value is not zero" );
Registrar r7( "sequence_placed", history< Placed >, 2000, "as sequence_int with elements whose copying does more than copy bytes" );
Registrar r5( "is_positive", predicates, 1000, "non zero values" );
}
