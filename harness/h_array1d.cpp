// C14: a one dimensional array is a vector.
#include "arr.hpp"
#include <list>
#include <deque>
#include <forward_list>
using namespace pbt;
using namespace lv;

template< typename T, typename INDEX, template< typename > class BUF, long CAP >
void vectorHistory( Src & s )
{
  using A = LvArray::Array< T, 1, RAJA::PERM_I, INDEX, BUF >;
  resetLedger();
  {
    A a;
    std::vector< int > v;
    int next = 1;
    auto fresh = [&]() { int const x = s.boolean( 0.1 ) ? 0 : next++ % 5000; return x; };
    long const f = CAP > 1000 ? s.large( 60 ) : 1;
    std::size_t n = 0;
    bool grew = false, mid = false;
    while( s.more( n, 60, 22 ) )
    {
      Span sp( s ); ++n;
      long const size = v.size();
      long const room = CAP - size;
      long const capBefore = a.capacity();
      T const * const dataBefore = a.data();
      bool replaced = false;
      long lastReserve = 0;
      switch( s.weighted( { 5, 5, 5, 3, 5, 2, 2, 1, 0.5, 2, 1, 1, 1 } ) )
      {
        case 0: case 1:
        {
          if( room < 1 ) break;
          bool const back = s.boolean();
          long const pos = back ? size : s.range< long >( 0, size );
          int const how = s.range( 0, 3 );
          long const own = how == 3 && size ? s.range< long >( 0, size - 1 ) : -1;
          int const x = own >= 0 ? v[ own ] : fresh();
          if( own >= 0 ) { LOG( s, "own value " << own ); s.label( size == capBefore ? "own value, reallocating" : "own value" ); }
          LOG( s, ( back ? "emplace_back " : "emplace " ) << x << " at " << pos << " form " << how );
          if( own >= 0 )
          { T const & t = a[ own ]; if( back ) a.emplace_back( t ); else a.emplace( INDEX( pos ), t ); }
          else if( how == 0 )
          {
            T const t = mk< T >( x );
            if( back ) a.emplace_back( t ); else a.emplace( INDEX( pos ), t );
            CHECK_EQ( val( t ), x, "the argument was modified" );
          }
          else if( how == 1 ) { if( back ) a.emplace_back( mk< T >( x ) ); else a.emplace( INDEX( pos ), mk< T >( x ) ); }
          else
          {
            if constexpr( std::is_same< T, std::string >::value )
            { std::string const t = mk< T >( x ); if( back ) a.emplace_back( t.begin(), t.end() ); else a.emplace( INDEX( pos ), t.c_str() ); }
            else if constexpr( isTracked< T > ) { if( back ) a.emplace_back( x ); else a.emplace( INDEX( pos ), x ); }
            else { T t = mk< T >( x ); if( back ) a.emplace_back( t ); else a.emplace( INDEX( pos ), t ); }
          }
          v.insert( v.begin() + pos, x );
          if( pos < size ) mid = true;
          break;
        }
        case 2:
        {
          long const k = s.length( std::min( 20L * f, room ) );
          long const pos = s.range< long >( 0, size );
          std::vector< int > xs;
          for( long i = 0; i < k; ++i ) xs.push_back( fresh() );
          int const how = s.range( 0, 3 );
          LOG( s, "insert " << k << " values at " << pos << " from source " << how );
          auto fill = [&]( auto & c ) { for( int x : xs ) c.push_back( mk< T >( x ) ); };
          if( how == 0 ) { std::vector< T > c; fill( c ); a.insert( INDEX( pos ), c.data(), c.data() + c.size() ); for( long i = 0; i < k; ++i ) CHECK_EQ( val( c[ i ] ), xs[ i ], "source modified" ); }
          else if( how == 1 ) { std::list< T > c; fill( c ); a.insert( INDEX( pos ), c.begin(), c.end() ); }
          else if( how == 2 ) { std::deque< T > c; fill( c ); a.insert( INDEX( pos ), c.cbegin(), c.cend() ); }
          else { std::forward_list< T > c; for( long i = k - 1; i >= 0; --i ) c.push_front( mk< T >( xs[ i ] ) ); a.insert( INDEX( pos ), c.begin(), c.end() ); }
          v.insert( v.begin() + pos, xs.begin(), xs.end() );
          if( k && pos < size ) mid = true;
          break;
        }
        case 3: if( size ) { LOG( s, "pop_back" ); a.pop_back(); v.pop_back(); } break;
        case 4:
          if( size ) { long const pos = s.range< long >( 0, size - 1 ); LOG( s, "erase " << pos ); a.erase( INDEX( pos ) ); v.erase( v.begin() + pos ); if( pos < size - 1 ) mid = true; }
          break;
        case 5: { long const k = s.length( std::min< long >( CAP, 60 * f ) ); LOG( s, "resize " << k ); a.resize( INDEX( k ) ); v.resize( k, dflt< T >() ); break; }
        case 6: { long const k = s.length( std::min< long >( CAP, 60 * f ) ); bool const own = size && s.boolean(); long const j = own ? s.range< long >( 0, size - 1 ) : 0; int const x = own ? v[ j ] : fresh(); LOG( s, "resizeDefault " << k << " " << x ); if( own ) a.resizeDefault( INDEX( k ), a[ j ] ); else a.resizeDefault( INDEX( k ), mk< T >( x ) ); v.resize( k, x ); break; }
        case 7: { long const k = s.range< long >( 0, std::min< long >( CAP, 120 * f ) ); LOG( s, "reserve " << k ); lastReserve = k; a.reserve( INDEX( k ) ); CHECK( long( a.capacity() ) >= k, "capacity after reserve" ); break; }
        case 8: LOG( s, "clear" ); a.clear(); v.clear(); break;
        case 9: if( size ) { long const i = s.range< long >( 0, size - 1 ); int const x = fresh(); LOG( s, "set " << i << " " << x ); a[ i ] = mk< T >( x ); v[ i ] = x; } break;
        case 10: { LOG( s, "copy" ); replaced = true; A b( a ); CHECK( long( b.size() ) == size ); a = b; break; }
        case 11: { LOG( s, "move" ); replaced = true; A b( std::move( a ) ); CHECK_EQ( long( a.size() ), 0L ); CHECK_EQ( long( b.size() ), size ); a = std::move( b ); break; }
        default:
          {
            long const pos = size + s.range( 0, 3 );
            LOG( s, "erase past the end " << pos );
            CHECK( reportsError( [&]() { a.erase( INDEX( pos ) ); } ), "no error erasing ", pos, " of ", size );
          }
      }
      if( long( a.capacity() ) > capBefore && size > 0 && capBefore > 0 ) grew = true;
      // Pointers into an array with enough capacity stay valid, as with a vector.
      if( !replaced && long( v.size() ) <= capBefore && capBefore > 0 && long( a.capacity() ) == capBefore ) CHECK( a.data() == dataBefore, "the values were moved within the same capacity" );
      if( !replaced && lastReserve <= capBefore ) CHECK( long( v.size() ) > capBefore || long( a.capacity() ) == capBefore, "the capacity changed from ", capBefore, " to ", long( a.capacity() ), " for ", v.size(), " values" );
      if( long( v.size() ) == capBefore && long( v.size() ) > size ) s.label( "filled to capacity" );
      checkLedger( isTracked< T > ? long( v.size() ) : -1, "operation" );
      CHECK_EQ( long( a.size() ), long( v.size() ) );
      CHECK_EQ( long( a.size( 0 ) ), long( v.size() ) );
      CHECK_EQ( a.empty(), v.empty() );
      CHECK( long( a.capacity() ) >= long( v.size() ) );
      for( long i = 0; i < long( v.size() ); ++i ) CHECK_EQ( val( a[ i ] ), v[ i ], "value ", i );
      long i = 0;
      for( T const & t : a ) { CHECK_EQ( val( t ), v[ i ] ); ++i; }
      CHECK_EQ( i, long( v.size() ) );
      if( !v.empty() ) { CHECK_EQ( val( a.front() ), v.front() ); CHECK_EQ( val( a.back() ), v.back() ); }
    }
    if( ( grew || CAP < 1000 ) && mid ) s.nontrivial();
    if( grew ) s.label( "grew" );
  }
  checkLedger( 0, "the array was destroyed" );
}
using LvArray::MallocBuffer;
template< typename T > using Stack24 = LvArray::StackBuffer< T, 24 >;
template< typename T > using Stack7 = LvArray::StackBuffer< T, 7 >;
#define V( T, I ) vectorHistory< T, I, MallocBuffer, 1000000 >
static char const * const rule = "values were inserted or erased away from the end of an array that reallocated";
static Registrar r1( "vec.int", V( int, std::ptrdiff_t ), 3000, rule, true );
static Registrar r2( "vec.tracked", V( Tracked, std::ptrdiff_t ), 4000, rule, true );
static Registrar r3( "vec.string", V( std::string, int ), 3000, rule, true );
static Registrar r8( "vec.init", V( Init, std::ptrdiff_t ), 1500, rule, true );
static Registrar r9( "vec.placed", V( Placed, int ), 1500, rule, true );
static Registrar r4( "vec.double", V( double, std::ptrdiff_t ), 1500, rule, true );
static Registrar r5( "vec.int.stack", vectorHistory< int, std::ptrdiff_t, Stack7, 7 >, 3000, rule );
static Registrar r6( "vec.double.stack", vectorHistory< double, int, Stack24, 24 >, 2000, rule );
