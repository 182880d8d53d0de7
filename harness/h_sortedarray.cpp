// C18: a sorted array is a std::set.
#include "arr.hpp"
#include "SortedArray.hpp"
#include <list>
#include <optional>
using namespace pbt;
using namespace lv;
using LvArray::MallocBuffer;

template< typename T > struct Less { bool operator()( int a, int b ) const { if constexpr( std::is_same< T, std::string >::value ) return mk< T >( a ) < mk< T >( b ); else return a < b; } };

template< typename T, typename INDEX >
void setHistory( Src & s )
{
  using A = LvArray::SortedArray< T, INDEX, MallocBuffer >;
  using M = std::set< int, Less< T > >;
  resetLedger();
  {
    constexpr int NA = 2;
    std::optional< A > a[ NA ];
    M m[ NA ];
    for( auto & x : a ) x.emplace();
    long const f = s.large( 60 );
    int const domain = f > 1 ? 80 * f : s.boolean() ? 12 : s.boolean() ? 60 : 1000;
    auto value = [&]() { return s.range( 0, domain ); };
    std::size_t n = 0;
    int batches = 0, removed = 0;
    auto batch = [&]( M const & base )
    {
      // Sorted unique values, some of them present.
      M b;
      int const k = s.length( 40 * f );
      int const style = s.range( 0, 3 );
      std::vector< int > const have( base.begin(), base.end() );
      for( int i = 0; i < k; ++i )
      {
        if( style == 1 && !have.empty() ) b.insert( have[ s.range< int >( 0, have.size() - 1 ) ] );
        else if( style == 2 ) b.insert( domain + s.range( 0, 200 ) );
        else b.insert( value() );
      }
      return std::vector< int >( b.begin(), b.end() );
    };
    auto withRange = [&]( std::vector< int > const & v, auto && f )
    {
      int const how = s.range( 0, 2 );
      LOG( s, v.size() << " values as container " << how );
      if( how == 0 ) { std::vector< T > c; for( int x : v ) c.push_back( mk< T >( x ) ); f( c.data(), c.data() + c.size() ); for( std::size_t i = 0; i < v.size(); ++i ) CHECK_EQ( val( c[ i ] ), v[ i ], "the argument was modified" ); }
      else if( how == 1 ) { std::list< T > c; for( int x : v ) c.push_back( mk< T >( x ) ); f( c.begin(), c.end() ); }
      else { std::set< T > c; for( int x : v ) c.insert( mk< T >( x ) ); f( c.begin(), c.end() ); }
    };
    while( s.more( n, 50, 18 ) )
    {
      Span sp( s ); ++n;
      int const w = s.range( 0, NA - 1 );
      A & x = *a[ w ];
      M & y = m[ w ];
      switch( s.weighted( { 6, 4, 4, 3, 0.5, 1, 1, 1, 2, 1, 1 } ) )
      {
        case 0: { int const v = value(); LOG( s, w << ".insert " << v ); T const t = mk< T >( v ); CHECK_EQ( x.insert( t ), y.insert( v ).second, "insert ", v ); break; }
        case 1:
        {
          auto const b = batch( y );
          LOG( s, w << ".insert batch" );
          long want = 0;
          for( int v : b ) want += y.insert( v ).second;
          withRange( b, [&]( auto f, auto l ) { CHECK_EQ( long( x.insert( f, l ) ), want, "batch insert" ); } );
          ++batches; break;
        }
        case 2: { int const v = y.empty() || s.boolean( 0.3 ) ? value() : *std::next( y.begin(), s.range< int >( 0, y.size() - 1 ) ); LOG( s, w << ".remove " << v ); T const t = mk< T >( v ); CHECK_EQ( x.remove( t ), y.erase( v ) == 1, "remove ", v ); ++removed; break; }
        case 3:
        {
          auto const b = batch( y );
          LOG( s, w << ".remove batch" );
          long want = 0;
          for( int v : b ) want += y.erase( v );
          withRange( b, [&]( auto f, auto l ) { CHECK_EQ( long( x.remove( f, l ) ), want, "batch remove" ); } );
          ++batches; break;
        }
        case 4: LOG( s, w << ".clear" ); x.clear(); y.clear(); break;
        case 5: LOG( s, w << ".reserve" ); x.reserve( INDEX( s.range< long >( 0, 100 * f ) ) ); break;
        case 6: if( w != 0 ) { LOG( s, "copy assign 0 to 1" ); *a[ 1 ] = *a[ 0 ]; m[ 1 ] = m[ 0 ]; } else { LOG( s, "copy construct 1 from 0" ); a[ 1 ].reset(); a[ 1 ].emplace( *a[ 0 ] ); m[ 1 ] = m[ 0 ]; } break;
        case 7: { LOG( s, "move construct 1 from 0" ); a[ 1 ].reset(); a[ 1 ].emplace( std::move( *a[ 0 ] ) ); m[ 1 ] = m[ 0 ]; m[ 0 ].clear(); break; }
        case 8: { int const v = s.range( -1, domain + 5 ); LOG( s, "contains " << v ); if( v < 0 && !std::is_same< T, int >::value ) break; T const t = mk< T >( v ); CHECK_EQ( x.contains( t ), y.count( v ) == 1, v ); CHECK_EQ( bool( x.count( t ) ), y.count( v ) == 1, v ); CHECK_EQ( x.toView().contains( t ), y.count( v ) == 1, v ); CHECK_EQ( bool( x.toViewConst().count( t ) ), y.count( v ) == 1 ); break; }
        case 9:
          // The argument is one of the set's own values.
          if( !y.empty() )
          {
            int const i = s.range< int >( 0, y.size() - 1 );
            int const v = *std::next( y.begin(), i );
            bool const rm = s.boolean();
            LOG( s, w << ( rm ? ".remove" : ".insert" ) << " own value " << i );
            if( rm ) { CHECK_EQ( x.remove( x[ i ] ), true ); y.erase( v ); } else CHECK_EQ( x.insert( x[ i ] ), false );
          }
          break;
        default:
          // Removing the set's own range leaves nothing.
          if( s.boolean( 0.3 ) ) { LOG( s, w << " insert the values of the other" ); A const & o = *a[ 1 - w ]; long want = 0; for( int v : m[ 1 - w ] ) want += y.insert( v ).second; CHECK_EQ( long( x.insert( o.begin(), o.end() ) ), want ); }
          else { LOG( s, w << " remove the values of the other" ); A const & o = *a[ 1 - w ]; long want = 0; for( int v : m[ 1 - w ] ) want += y.erase( v ); CHECK_EQ( long( x.remove( o.begin(), o.end() ) ), want ); }
      }
      checkLedger( isTracked< T > ? long( m[ 0 ].size() + m[ 1 ].size() ) : -1, "operation" );
      for( int k = 0; k < NA; ++k )
      {
        A const & z = *a[ k ];
        CHECK_EQ( long( z.size() ), long( m[ k ].size() ) );
        CHECK_EQ( z.empty(), m[ k ].empty() );
        auto const view = z.toView();
        auto const viewC = z.toViewConst();
        auto const slice = z.toSlice();
        CHECK( view.data() == z.data() && viewC.data() == z.data() && z.begin() == z.data() && z.end() == z.data() + m[ k ].size() );
        CHECK_EQ( long( view.size() ), long( m[ k ].size() ) ); CHECK_EQ( long( slice.size() ), long( m[ k ].size() ) );
        CHECK( view.begin() == z.begin() && view.end() == z.end() );
        long i = 0;
        for( int v : m[ k ] )
        {
          CHECK_EQ( val( z[ i ] ), v, "value ", i, " of ", k );
          CHECK_EQ( val( z( i ) ), v ); CHECK_EQ( val( view[ i ] ), v ); CHECK_EQ( val( viewC( i ) ), v ); CHECK_EQ( val( slice[ i ] ), v ); CHECK_EQ( val( z.data()[ i ] ), v );
          ++i;
        }
        CHECK( LvArray::sortedArrayManipulation::isSortedUnique( z.begin(), z.end() ) );
      }
    }
    if( batches > 1 && removed > 0 ) s.nontrivial();
  }
  checkLedger( 0, "destruction" );
}
static char const * const rule = "at least two batch operations and a removal";
static Registrar r1( "set.int", setHistory< int, std::ptrdiff_t >, 5000, rule, true );
static Registrar r2( "set.tracked", setHistory< Tracked, int >, 5000, rule, true );
static Registrar r3( "set.string", setHistory< std::string, std::ptrdiff_t >, 3000, rule, true );
static Registrar r4( "set.double", setHistory< double, int >, 3000, rule, true );
static Registrar r5x( "set.placed", setHistory< Placed, int >, 3000, rule, true );
