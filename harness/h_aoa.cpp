// C19: an array of arrays is a vector of vectors.
#include "arr.hpp"
#include "ArrayOfArrays.hpp"
#include <list>
#include <optional>
using namespace pbt;
using namespace lv;
using LvArray::MallocBuffer;

template< typename T, typename INDEX >
void history( Src & s )
{
  using A = LvArray::ArrayOfArrays< T, INDEX, MallocBuffer >;
  using M = std::vector< std::vector< int > >;
  resetLedger();
  {
    int next = 1;
    auto fresh = [&]() { return next++ % 30000; };
    std::optional< A > oa;
    M m;
    std::vector< long > minCap;
    long const f = s.large( 40 );
    if( s.boolean() ) oa.emplace();
    else
    {
      int const n = s.range< int >( 0, 8 * f ), c = s.range< int >( 0, 6 * f );
      LOG( s, "ArrayOfArrays( " << n << ", " << c << " )" );
      if( c == 0 && s.boolean() ) oa.emplace( INDEX( n ) ); else oa.emplace( INDEX( n ), INDEX( c ) );
      m.resize( n ); minCap.assign( n, c );
    }
    A & a = *oa;
    std::size_t n = 0;
    int structural = 0, inner = 0, grown = 0;
    auto withRange = [&]( std::vector< int > const & v, auto && f )
    {
      int const how = s.range( 0, 1 );
      LOG( s, "  " << v.size() << " values as container " << how );
      if( how == 0 ) { std::vector< T > c; for( int x : v ) c.push_back( mk< T >( x ) ); f( c.data(), c.data() + c.size() ); for( std::size_t i = 0; i < v.size(); ++i ) CHECK_EQ( val( c[ i ] ), v[ i ], "the argument was modified" ); }
      else { std::list< T > c; for( int x : v ) c.push_back( mk< T >( x ) ); f( c.begin(), c.end() ); std::size_t i = 0; for( auto const & x : c ) CHECK_EQ( val( x ), v[ i++ ], "the argument was modified" ); }
    };
    auto values = [&]( int mx ) { std::vector< int > v( s.length( mx ) ); for( int & x : v ) x = fresh(); return v; };
    while( s.more( n, 60, 22 ) )
    {
      Span sp( s ); ++n;
      long const size = m.size();
      int const op = s.weighted( { 4, 2, 2, 2, 5, 3, 3, 3, 2, 2, 1, 2, 1, 1, 0.7, 0.7, 0.5, 2, 1 } );
      bool const needsArray = op == 3 || ( op >= 4 && op <= 11 ) || op == 17;
      if( needsArray && size == 0 ) continue;
      long const i = needsArray ? s.range< long >( 0, size - 1 ) : 0;
      long const len = needsArray ? long( m[ i ].size() ) : 0;
      T const * const before = a.toViewConst().getValues();
      auto const sizesBefore = a.toViewConst().getSizes(); auto const offsetsBefore = a.toViewConst().getOffsets();
      bool const room = op <= 2 && size < long( a.capacity() );
      bool const inCap = needsArray && len < long( a.capacityOfArray( i ) );
      switch( op )
      {
        case 0: { auto const v = values( 8 * f ); LOG( s, "appendArray range" ); withRange( v, [&]( auto f, auto l ) { a.appendArray( f, l ); } ); m.push_back( v ); minCap.push_back( 0 ); ++structural; break; }
        case 1: { int const k = s.length( 8 * f ); LOG( s, "appendArray( " << k << " )" ); a.appendArray( INDEX( k ) ); m.emplace_back( k, lv::dflt< T >() ); minCap.push_back( 0 ); ++structural; break; }
        case 2: { long const p = s.range< long >( 0, size ); auto const v = values( 8 * f ); LOG( s, "insertArray( " << p << " )" ); withRange( v, [&]( auto f, auto l ) { a.insertArray( INDEX( p ), f, l ); } ); m.insert( m.begin() + p, v ); minCap.insert( minCap.begin() + p, 0 ); ++structural; break; }
        case 3: LOG( s, "eraseArray( " << i << " )" ); a.eraseArray( INDEX( i ) ); m.erase( m.begin() + i ); minCap.erase( minCap.begin() + i ); ++structural; break;
        case 4:
        {
          long const src = s.boolean( 0.3 ) ? s.range< long >( 0, size - 1 ) : -1; bool const own = src >= 0 && !m[ src ].empty();
          long const at = own ? s.range< long >( 0, long( m[ src ].size() ) - 1 ) : 0;
          int const v = own ? m[ src ][ at ] : fresh(); LOG( s, "emplaceBack( " << i << " )" ); if( own ) { LOG( s, "own value " << src << ", " << at ); }
          if( own ) { T const & t = a( INDEX( src ), INDEX( at ) ); a.emplaceBack( INDEX( i ), t ); } else if( s.boolean() ) { T const t = mk< T >( v ); a.emplaceBack( INDEX( i ), t ); CHECK_EQ( val( t ), v, "the argument was modified" ); } else a.emplaceBack( INDEX( i ), mk< T >( v ) );
          m[ i ].push_back( v ); ++inner; if( inCap ) CHECK( a.toViewConst().getValues() == before, "reallocated although array ", i, " had spare capacity" ); else ++grown; break;
        }
        case 5: { auto const v = values( 6 ); LOG( s, "appendToArray( " << i << " )" ); bool const fits = len + long( v.size() ) <= long( a.capacityOfArray( i ) ); withRange( v, [&]( auto f, auto l ) { a.appendToArray( INDEX( i ), f, l ); } ); m[ i ].insert( m[ i ].end(), v.begin(), v.end() ); ++inner; if( fits ) CHECK( a.toViewConst().getValues() == before, "reallocated within capacity" ); else ++grown; break; }
        case 6:
        {
          long const j = s.range< long >( 0, len );
          long const src = s.boolean( 0.3 ) ? s.range< long >( 0, size - 1 ) : -1; bool const own = src >= 0 && !m[ src ].empty();
          long const at = own ? s.range< long >( 0, long( m[ src ].size() ) - 1 ) : 0;
          int const v = own ? m[ src ][ at ] : fresh(); LOG( s, "emplace( " << i << ", " << j << " )" ); if( own ) { LOG( s, "own value " << src << ", " << at ); }
          if( own ) { T const & t = a( INDEX( src ), INDEX( at ) ); a.emplace( INDEX( i ), INDEX( j ), t ); } else if( s.boolean() ) { T const t = mk< T >( v ); a.emplace( INDEX( i ), INDEX( j ), t ); CHECK_EQ( val( t ), v ); } else a.emplace( INDEX( i ), INDEX( j ), mk< T >( v ) );
          m[ i ].insert( m[ i ].begin() + j, v ); ++inner; break;
        }
        case 7: { long const j = s.range< long >( 0, len ); auto const v = values( 6 ); LOG( s, "insertIntoArray( " << i << ", " << j << " )" ); withRange( v, [&]( auto f, auto l ) { a.insertIntoArray( INDEX( i ), INDEX( j ), f, l ); } ); m[ i ].insert( m[ i ].begin() + j, v.begin(), v.end() ); ++inner; break; }
        case 8:
        {
          if( len == 0 ) break;
          long const j = s.range< long >( 0, len - 1 ), k = s.boolean() ? 1 : s.range< long >( 1, len - j ); LOG( s, "eraseFromArray( " << i << ", " << j << ", " << k << " )" );
          if( k == 1 && s.boolean() ) a.eraseFromArray( INDEX( i ), INDEX( j ) ); else a.eraseFromArray( INDEX( i ), INDEX( j ), INDEX( k ) );
          m[ i ].erase( m[ i ].begin() + j, m[ i ].begin() + j + k ); ++inner; break;
        }
        case 9:
        {
          long const k = s.length( 12 * f ); long const src = s.boolean( 0.3 ) ? s.range< long >( 0, size - 1 ) : -1;
          if( src >= 0 && !m[ src ].empty() )
          {
            long const at = s.range< long >( 0, long( m[ src ].size() ) - 1 ); int const own = m[ src ][ at ];
            LOG( s, "resizeArray( " << i << ", " << k << ", value " << at << " of " << src << " )" );
            a.resizeArray( INDEX( i ), INDEX( k ), a( INDEX( src ), INDEX( at ) ) ); m[ i ].resize( k, own ); ++inner; break;
          }
          bool const dflt = s.boolean(); int const v = dflt ? lv::dflt< T >() : fresh(); LOG( s, "resizeArray( " << i << ", " << k << ( dflt ? "" : ", value" ) << " )" );
          if( dflt ) a.resizeArray( INDEX( i ), INDEX( k ) ); else { T const t = mk< T >( v ); a.resizeArray( INDEX( i ), INDEX( k ), t ); CHECK_EQ( val( t ), v ); }
          m[ i ].resize( k, v ); ++inner; break;
        }
        case 10: LOG( s, "clearArray( " << i << " )" ); a.clearArray( INDEX( i ) ); m[ i ].clear(); break;
        case 11: { long const c = s.length( 16 * f ); LOG( s, "setCapacityOfArray( " << i << ", " << c << " )" ); a.setCapacityOfArray( INDEX( i ), INDEX( c ) ); CHECK_EQ( long( a.capacityOfArray( i ) ), c ); if( len > c ) m[ i ].resize( c ); minCap[ i ] = c; break; }
        case 12: { long const k = s.length( 12 * f ), c = s.boolean() ? 0 : s.range< long >( 1, 6 * f ); LOG( s, "resize( " << k << ", " << c << " )" ); if( c == 0 && s.boolean() ) a.resize( INDEX( k ) ); else a.resize( INDEX( k ), INDEX( c ) ); m.resize( k ); minCap.resize( k, c ); ++structural; break; }
        case 13: { long const k = s.length( 30 * f ); LOG( s, "reserve( " << k << " )" ); a.reserve( INDEX( k ) ); CHECK( long( a.capacity() ) >= k, "capacity() is ", a.capacity(), " after reserve( ", k, " )" ); break; }
        case 14: { long const k = s.length( 80 * f ); LOG( s, "reserveValues( " << k << " )" ); a.reserveValues( INDEX( k ) ); CHECK( long( a.valueCapacity() ) >= k, "valueCapacity() is ", a.valueCapacity(), " after reserveValues( ", k, " )" ); break; }
        case 15: LOG( s, "compress" ); a.compress(); for( long k = 0; k < size; ++k ) { CHECK_EQ( long( a.capacityOfArray( k ) ), long( m[ k ].size() ), "capacity of array ", k, " after compress" ); minCap[ k ] = 0; } break;
        case 16:
        {
          std::vector< INDEX > caps( s.length( 10 * f ) ); for( auto & c : caps ) c = s.range< INDEX >( 0, 6 * f );
          std::vector< INDEX > const copy = caps;
          LOG( s, "resizeFromCapacities( " << caps.size() << " )" );
          a.template resizeFromCapacities< RAJA::loop_exec >( INDEX( caps.size() ), caps.data() );
          CHECK( caps == copy, "the capacities were modified" );
          m.assign( caps.size(), {} ); minCap.assign( caps.begin(), caps.end() );
          for( std::size_t k = 0; k < caps.size(); ++k ) CHECK_EQ( long( a.capacityOfArray( k ) ), long( caps[ k ] ), "capacity of array ", k );
          ++structural; break;
        }
        case 17:
        {
          // Within its capacity a view can change the values.
          auto const v = a.toView();
          long const spare = a.capacityOfArray( i ) - len;
          int const what = s.range( 0, 5 );
          LOG( s, "view operation " << what << " on " << i );
          if( ( what == 0 || what == 2 ) && spare > 0 && len > 0 && s.boolean( 0.3 ) )
          {
            // The value may be one of the values of the array.
            long const at = s.range< long >( 0, len - 1 ), j = what == 0 ? len : s.range< long >( 0, len ); int const x = m[ i ][ at ];
            if( what == 0 ) v.emplaceBack( INDEX( i ), v( INDEX( i ), INDEX( at ) ) ); else v.emplace( INDEX( i ), INDEX( j ), v( INDEX( i ), INDEX( at ) ) );
            m[ i ].insert( m[ i ].begin() + j, x );
          }
          else if( what == 0 && spare > 0 ) { int const x = fresh(); v.emplaceBack( INDEX( i ), mk< T >( x ) ); m[ i ].push_back( x ); }
          else if( what == 1 ) { auto x = values( std::min( spare, 6l ) ); withRange( x, [&]( auto f, auto l ) { v.appendToArray( INDEX( i ), f, l ); } ); m[ i ].insert( m[ i ].end(), x.begin(), x.end() ); }
          else if( what == 2 && spare > 0 ) { int const x = fresh(); long const j = s.range< long >( 0, len ); v.emplace( INDEX( i ), INDEX( j ), mk< T >( x ) ); m[ i ].insert( m[ i ].begin() + j, x ); }
          else if( what == 3 ) { auto x = values( std::min( spare, 6l ) ); long const j = s.range< long >( 0, len ); withRange( x, [&]( auto f, auto l ) { v.insertIntoArray( INDEX( i ), INDEX( j ), f, l ); } ); m[ i ].insert( m[ i ].begin() + j, x.begin(), x.end() ); }
          else if( what == 4 && len > 0 ) { long const j = s.range< long >( 0, len - 1 ), k = s.range< long >( 1, len - j ); v.eraseFromArray( INDEX( i ), INDEX( j ), INDEX( k ) ); m[ i ].erase( m[ i ].begin() + j, m[ i ].begin() + j + k ); }
          else if( what == 5 && spare > 0 ) { int const x = fresh(); v.template emplaceBackAtomic< RAJA::seq_atomic >( INDEX( i ), mk< T >( x ) ); m[ i ].push_back( x ); }
          CHECK( a.toViewConst().getValues() == before, "a view reallocated" );
          ++inner; break;
        }
        default:
          // Writing through an element, a slice or a const sizes view changes that value only.
          if( size > 0 )
          {
            long const k = s.range< long >( 0, size - 1 );
            if( m[ k ].empty() ) break;
            long const j = s.range< long >( 0, m[ k ].size() - 1 ); int const x = fresh(); int const how = s.range( 0, 3 );
            LOG( s, "write " << k << ", " << j );
            if( how == 0 ) a( k, j ) = mk< T >( x ); else if( how == 1 ) a[ k ][ j ] = mk< T >( x ); else if( how == 2 ) a.toViewConstSizes()( k, j ) = mk< T >( x ); else a.toViewConstSizes()[ k ][ j ] = mk< T >( x );
            m[ k ][ j ] = x;
          }
      }
      if( room ) CHECK( a.toViewConst().getSizes() == sizesBefore && a.toViewConst().getOffsets() == offsetsBefore, "reallocated although there was capacity for another array" );
      long total = 0;
      for( auto const & r : m ) total += r.size();
      checkLedger( isTracked< T > ? total : -1, "operation" );
      A const & c = a;
      auto const v = a.toView(); auto const vs = a.toViewConstSizes(); auto const vc = a.toViewConst();
      CHECK_EQ( long( c.size() ), long( m.size() ) ); CHECK_EQ( long( v.size() ), long( m.size() ) ); CHECK_EQ( long( vs.size() ), long( m.size() ) ); CHECK_EQ( long( vc.size() ), long( m.size() ) );
      CHECK( long( c.capacity() ) >= long( m.size() ), "capacity() is ", c.capacity() );
      CHECK( v.getValues() == vc.getValues() && vs.getValues() == vc.getValues() && vc.getValues() == vc.getValues() );
      long prevEnd = 0;
      for( long k = 0; k < long( m.size() ); ++k )
      {
        long const want = m[ k ].size();
        CHECK_EQ( long( c.sizeOfArray( k ) ), want, "size of array ", k );
        CHECK_EQ( long( v.sizeOfArray( k ) ), want ); CHECK_EQ( long( vs.sizeOfArray( k ) ), want ); CHECK_EQ( long( vc.sizeOfArray( k ) ), want ); CHECK_EQ( long( c[ k ].size() ), want ); CHECK_EQ( long( vc.getSizes()[ k ] ), want );
        long const cap = c.capacityOfArray( k );
        CHECK( cap >= want, "array ", k, " has capacity ", cap, " and size ", want );
        CHECK( cap >= minCap[ k ], "array ", k, " has capacity ", cap, " although ", minCap[ k ], " was requested" );
        CHECK_EQ( long( v.capacityOfArray( k ) ), cap ); CHECK_EQ( long( vc.capacityOfArray( k ) ), cap );
        long const off = vc.getOffsets()[ k ];
        CHECK( off >= prevEnd, "array ", k, " overlaps the one before" );
        CHECK_EQ( long( vc.getOffsets()[ k + 1 ] ) - off, cap );
        prevEnd = off + cap;
        for( long j = 0; j < want; ++j )
        {
          CHECK_EQ( val( c( k, j ) ), m[ k ][ j ], "value (", k, ", ", j, ")" );
          CHECK( &c( k, j ) == vc.getValues() + off + j && &v( k, j ) == &c( k, j ) && &vs( k, j ) == &c( k, j ) && &vc( k, j ) == &c( k, j ) && &c[ k ][ j ] == &c( k, j ) && &vc[ k ][ j ] == &c( k, j ) && &v[ k ][ j ] == &c( k, j ) && &vs[ k ]( j ) == &c( k, j ) );
        }
      }
      CHECK( long( c.valueCapacity() ) >= prevEnd, "the arrays extend past the values" );
    }
    if( structural > 1 && inner > 1 && grown > 0 ) s.nontrivial();
  }
  checkLedger( 0, "destruction" );
}

/// Types that refer to themselves, as std::list and std::map do.
template< typename C > struct Hard;
template<> struct Hard< std::list< int > > { static std::list< int > make( int v ) { return std::list< int >( v % 4, v ); } static bool is( std::list< int > const & l, int v ) { return l == make( v ); } };
template<> struct Hard< std::map< int, int > > { static std::map< int, int > make( int v ) { std::map< int, int > r; for( int i = 0; i < v % 4; ++i ) r[ i ] = v; return r; } static bool is( std::map< int, int > const & l, int v ) { return l == make( v ); } };
template< typename T >
void selfReferential( Src & s )
{
  using A = LvArray::ArrayOfArrays< T, int, MallocBuffer >;
  A a;
  std::vector< std::vector< int > > m;
  std::size_t n = 0; int next = 1, grown = 0;
  while( s.more( n, 40, 18 ) )
  {
    Span sp( s ); ++n;
    int const v = next++;
    std::size_t const op = s.weighted( { 2, 6, 2, 1, 1, 1, 1 } );
    if( op == 0 || m.empty() ) { LOG( s, "appendArray" ); a.appendArray( 0 ); m.emplace_back(); continue; }
    int const i = s.range< int >( 0, m.size() - 1 );
    LOG( s, "operation " << op << " on " << i );
    auto const cap = a.valueCapacity();
    if( op == 1 ) { a.emplaceBack( i, Hard< T >::make( v ) ); m[ i ].push_back( v ); }
    else if( op == 2 ) { int const j = s.range< int >( 0, m[ i ].size() ); a.emplace( i, j, Hard< T >::make( v ) ); m[ i ].insert( m[ i ].begin() + j, v ); }
    else if( op == 3 ) { a.eraseArray( i ); m.erase( m.begin() + i ); }
    else if( op == 4 ) { int const c = s.range( 0, 10 ); a.setCapacityOfArray( i, c ); if( c < int( m[ i ].size() ) ) m[ i ].resize( c ); }
    else if( op == 5 ) a.reserveValues( a.valueCapacity() + 1 );
    else a.compress();
    if( cap < a.valueCapacity() ) ++grown;
    for( std::size_t k = 0; k < m.size(); ++k ) for( std::size_t j = 0; j < m[ k ].size(); ++j ) CHECK( Hard< T >::is( a( k, j ), m[ k ][ j ] ), "value ", k, ", ", j );
  }
  if( grown > 1 ) s.nontrivial();
}
static char const * const rule = "at least two changes of the arrays, two of the values within arrays, and an array that grew";
static Registrar r1( "aoa.int", history< int, std::ptrdiff_t >, 6000, rule, true );
static Registrar r9( "aoa.init", history< Init, std::ptrdiff_t >, 2000, rule, true );
static Registrar r10( "aoa.placed", history< Placed, int >, 1500, rule, true );
static Registrar r2( "aoa.tracked", history< Tracked, int >, 6000, rule, true );
static Registrar r3( "aoa.string", history< std::string, std::ptrdiff_t >, 4000, rule, true );
static Registrar r4( "aoa.list", selfReferential< std::list< int > >, 3000, "the values were reallocated twice", true );
static Registrar r5( "aoa.map", selfReferential< std::map< int, int > >, 3000, "the values were reallocated twice", true );
