// C20: an array of sets is a vector of std::set.
#include "ragged.hpp"
using namespace pbt;
using namespace lv;

template< typename T, typename INDEX >
void history( Src & s )
{
  using A = LvArray::ArrayOfSets< T, INDEX, MallocBuffer >;
  using M = std::vector< RefSet< T > >;
  resetLedger();
  {
    std::optional< A > oa;
    M m;
    std::vector< long > minCap;
    long const f = s.large( 40 );
    int const domain = f > 1 ? 12 + 40 * f : s.boolean() ? 12 : s.boolean() ? 60 : 1000;
    if( s.boolean() ) oa.emplace();
    else { int const n = s.range< int >( 0, 8 * f ), c = s.range< int >( 0, 6 * f ); LOG( s, "ArrayOfSets( " << n << ", " << c << " )" ); oa.emplace( INDEX( n ), INDEX( c ) ); m.resize( n ); minCap.assign( n, c ); }
    A & a = *oa;
    std::size_t n = 0;
    int structural = 0, batches = 0, removed = 0;
    auto value = [&]( RefSet< T > const & y ) { return y.empty() || s.boolean() ? s.range( 0, domain - 1 ) : *std::next( y.begin(), s.range< int >( 0, y.size() - 1 ) ); };
    while( s.more( n, 60, 22 ) )
    {
      Span sp( s ); ++n;
      long const size = m.size();
      int const op = s.weighted( { 3, 2, 1.5, 6, 6, 3, 4, 1, 1, 1, 0.5, 0.7, 0.7, 0.7, 0.5, 2 } );
      bool const needsSet = ( op >= 2 && op <= 9 ) || op == 15;
      if( needsSet && size == 0 ) continue;
      long const i = needsSet ? s.range< long >( 0, size - 1 ) : 0;
      long const len = needsSet ? long( m[ i ].size() ) : 0;
      T const * const before = a.toViewConst().getValues();
      switch( op )
      {
        case 0: { int const c = s.range< int >( 0, 6 * f ); LOG( s, "appendSet( " << c << " )" ); if( c == 0 && s.boolean() ) a.appendSet(); else a.appendSet( INDEX( c ) ); m.emplace_back(); minCap.push_back( c ); ++structural; break; }
        case 1: { long const p = s.range< long >( 0, size ); int const c = s.range< int >( 0, 6 * f ); LOG( s, "insertSet( " << p << ", " << c << " )" ); if( c == 0 && s.boolean() ) a.insertSet( INDEX( p ) ); else a.insertSet( INDEX( p ), INDEX( c ) ); m.insert( m.begin() + p, RefSet< T > {} ); minCap.insert( minCap.begin() + p, c ); ++structural; break; }
        case 2: LOG( s, "eraseSet( " << i << " )" ); a.eraseSet( INDEX( i ) ); m.erase( m.begin() + i ); minCap.erase( minCap.begin() + i ); ++structural; break;
        case 3:
        {
          long const src = s.boolean( 0.2 ) ? s.range< long >( 0, size - 1 ) : -1;
          if( src >= 0 && !m[ src ].empty() )
          {
            // The value may come from one of the sets.
            long const at = s.range< long >( 0, long( m[ src ].size() ) - 1 ); int const own = *std::next( m[ src ].begin(), at );
            LOG( s, "insertIntoSet( " << i << ", value " << at << " of " << src << " )" ); s.label( "own value" );
            CHECK_EQ( a.insertIntoSet( INDEX( i ), a( INDEX( src ), INDEX( at ) ) ), m[ i ].insert( own ).second, "insertIntoSet" );
            break;
          }
          int const v = value( m[ i ] ); LOG( s, "insertIntoSet( " << i << ", " << v << " )" ); T const t = mk< T >( v );
          bool const fits = len < long( a.capacityOfSet( i ) );
          CHECK_EQ( a.insertIntoSet( INDEX( i ), t ), m[ i ].insert( v ).second, "insertIntoSet" ); CHECK_EQ( val( t ), v, "the argument was modified" );
          if( fits ) CHECK( a.toViewConst().getValues() == before, "reallocated within the capacity of the set" );
          break;
        }
        case 4:
        {
          auto const b = batchFor( s, m[ i ], domain, 20 * f ); LOG( s, "insertIntoSet( " << i << " ) batch" );
          long want = 0; for( int v : b ) want += m[ i ].insert( v ).second;
          withRange< T >( s, b, [&]( auto f, auto l ) { CHECK_EQ( long( a.insertIntoSet( INDEX( i ), f, l ) ), want, "values inserted" ); } ); ++batches; break;
        }
        case 5: { int const v = value( m[ i ] ); LOG( s, "removeFromSet( " << i << ", " << v << " )" ); T const t = mk< T >( v ); CHECK_EQ( a.removeFromSet( INDEX( i ), t ), m[ i ].erase( v ) == 1, "removeFromSet" ); ++removed; break; }
        case 6:
        {
          auto const b = batchFor( s, m[ i ], domain, 20 * f ); LOG( s, "removeFromSet( " << i << " ) batch" );
          long want = 0; for( int v : b ) want += m[ i ].erase( v );
          withRange< T >( s, b, [&]( auto f, auto l ) { CHECK_EQ( long( a.removeFromSet( INDEX( i ), f, l ) ), want, "values removed" ); } ); ++batches; ++removed; break;
        }
        case 7: LOG( s, "clearSet( " << i << " )" ); a.clearSet( INDEX( i ) ); m[ i ].clear(); break;
        case 8:
        {
          long const c = s.length( 16 * f ); LOG( s, "setCapacityOfSet( " << i << ", " << c << " )" ); a.setCapacityOfSet( INDEX( i ), INDEX( c ) ); CHECK_EQ( long( a.capacityOfSet( i ) ), c );
          while( long( m[ i ].size() ) > c ) m[ i ].erase( std::prev( m[ i ].end() ) );
          minCap[ i ] = c; break;
        }
        case 9: { long const c = s.length( 16 * f ); LOG( s, "reserveCapacityOfSet( " << i << ", " << c << " )" ); a.reserveCapacityOfSet( INDEX( i ), INDEX( c ) ); minCap[ i ] = std::max( minCap[ i ], c ); break; }
        case 10: LOG( s, "compress" ); a.compress(); for( long k = 0; k < size; ++k ) { CHECK_EQ( long( a.capacityOfSet( k ) ), long( m[ k ].size() ), "capacity after compress" ); minCap[ k ] = 0; } break;
        case 11: { long const k = s.length( 12 * f ), c = s.boolean() ? 0 : s.range< long >( 1, 6 * f ); LOG( s, "resize( " << k << ", " << c << " )" ); if( c == 0 && s.boolean() ) a.resize( INDEX( k ) ); else a.resize( INDEX( k ), INDEX( c ) ); m.resize( k ); minCap.resize( k, c ); ++structural; break; }
        case 12: { long const k = s.length( 30 * f ); LOG( s, "reserve( " << k << " )" ); a.reserve( INDEX( k ) ); CHECK( long( a.capacity() ) >= k ); break; }
        case 13: { long const k = s.length( 80 * f ); LOG( s, "reserveValues( " << k << " )" ); a.reserveValues( INDEX( k ) ); CHECK( long( a.valueCapacity() ) >= k ); break; }
        case 14:
        {
          std::vector< INDEX > caps( s.length( 10 * f ) ); for( auto & c : caps ) c = s.range< INDEX >( 0, 6 * f );
          LOG( s, "resizeFromCapacities( " << caps.size() << " )" );
          a.template resizeFromCapacities< RAJA::loop_exec >( INDEX( caps.size() ), caps.data() );
          m.assign( caps.size(), {} ); minCap.assign( caps.begin(), caps.end() );
          for( std::size_t k = 0; k < caps.size(); ++k ) CHECK_EQ( long( a.capacityOfSet( k ) ), long( caps[ k ] ) );
          ++structural; break;
        }
        default:
        {
          // Within its capacity a view can change the sets.
          auto const v = a.toView();
          long const spare = a.capacityOfSet( i ) - len;
          int const what = s.range( 0, 3 );
          LOG( s, "view operation " << what << " on " << i );
          if( what == 0 && spare > 0 ) { int const x = value( m[ i ] ); CHECK_EQ( v.insertIntoSet( INDEX( i ), mk< T >( x ) ), m[ i ].insert( x ).second ); }
          else if( what == 1 )
          {
            auto b = batchFor( s, m[ i ], domain, 12 * f );
            // Only what fits: present values take no room.
            std::vector< int > fit; long room = spare; for( int x : b ) if( m[ i ].count( x ) || room-- > 0 ) fit.push_back( x );
            long want = 0; for( int x : fit ) want += m[ i ].insert( x ).second;
            withRange< T >( s, fit, [&]( auto f, auto l ) { CHECK_EQ( long( v.insertIntoSet( INDEX( i ), f, l ) ), want ); } );
          }
          else if( what == 2 ) { int const x = value( m[ i ] ); CHECK_EQ( v.removeFromSet( INDEX( i ), mk< T >( x ) ), m[ i ].erase( x ) == 1 ); }
          else { auto const b = batchFor( s, m[ i ], domain, 12 * f ); long want = 0; for( int x : b ) want += m[ i ].erase( x ); withRange< T >( s, b, [&]( auto f, auto l ) { CHECK_EQ( long( v.removeFromSet( INDEX( i ), f, l ) ), want ); } ); }
          CHECK( a.toViewConst().getValues() == before, "a view reallocated" );
        }
      }
      long total = 0;
      for( auto const & r : m ) total += r.size();
      checkLedger( isTracked< T > ? total : -1, "operation" );
      A const & c = a;
      auto const v = a.toView(); auto const vc = a.toViewConst(); auto const va = a.toArrayOfArraysView();
      CHECK_EQ( long( c.size() ), long( m.size() ) ); CHECK_EQ( long( v.size() ), long( m.size() ) ); CHECK_EQ( long( vc.size() ), long( m.size() ) ); CHECK_EQ( long( va.size() ), long( m.size() ) );
      CHECK( long( c.capacity() ) >= long( m.size() ) );
      CHECK( v.getValues() == vc.getValues() && va.getValues() == vc.getValues() );
      checkLayout( vc, m.size(), c.valueCapacity() );
      for( long k = 0; k < long( m.size() ); ++k )
      {
        long const want = m[ k ].size();
        CHECK_EQ( long( c.sizeOfSet( k ) ), want, "size of set ", k );
        CHECK_EQ( long( v.sizeOfSet( k ) ), want ); CHECK_EQ( long( vc.sizeOfSet( k ) ), want ); CHECK_EQ( long( va.sizeOfArray( k ) ), want ); CHECK_EQ( long( c[ k ].size() ), want );
        CHECK( long( c.capacityOfSet( k ) ) >= std::max( want, minCap[ k ] ), "set ", k, " has capacity ", c.capacityOfSet( k ), ", requested ", minCap[ k ] );
        CHECK_EQ( long( v.capacityOfSet( k ) ), long( c.capacityOfSet( k ) ) );
        long j = 0;
        for( int x : m[ k ] )
        {
          CHECK_EQ( val( c( k, j ) ), x, "value (", k, ", ", j, ")" );
          CHECK( &v( k, j ) == &c( k, j ) && &vc( k, j ) == &c( k, j ) && &va( k, j ) == &c( k, j ) && &c[ k ][ j ] == &c( k, j ) && &v[ k ][ j ] == &c( k, j ) );
          ++j;
        }
      }
      a.consistencyCheck();
      if( !m.empty() )
      {
        long const k = s.range< long >( 0, m.size() - 1 ); int const x = value( m[ k ] ); T const t = mk< T >( x );
        CHECK_EQ( c.contains( INDEX( k ), t ), m[ k ].count( x ) == 1, "contains( ", k, ", ", x, " )" );
        CHECK_EQ( v.contains( INDEX( k ), t ), m[ k ].count( x ) == 1 ); CHECK_EQ( vc.contains( INDEX( k ), t ), m[ k ].count( x ) == 1 );
      }
    }
    if( structural > 1 && batches > 1 && removed > 0 ) s.nontrivial();
  }
  checkLedger( 0, "destruction" );
}

/// Every description builds the same sets; later use of the result works.
template< typename T, typename INDEX >
void assimilation( Src & s )
{
  namespace sam = LvArray::sortedArrayManipulation;
  resetLedger();
  {
    int const domain = s.boolean() ? 8 : 200;
    long const f = s.large( 40 );
    int const n = s.range< int >( 0, 8 * f );
    std::vector< RefSet< T > > m( n );
    std::vector< std::vector< int > > dup( n );
    for( int i = 0; i < n; ++i )
    {
      dup[ i ].resize( s.length( s.boolean( 0.1 ) ? 150 : 25 * ( f > 4 ? 4 : f ) ) );
      for( int & x : dup[ i ] ) x = s.range( 0, domain - 1 );
      m[ i ].insert( dup[ i ].begin(), dup[ i ].end() );
    }
    int desc = s.range( 0, 3 );
    LOG( s, n << " sets, description " << desc );
    using AoA = LvArray::ArrayOfArrays< T, INDEX, MallocBuffer >;
    using AoS = LvArray::ArrayOfSets< T, INDEX, MallocBuffer >;
    AoA src;
    bool anyDup = false, unsorted = false;
    for( int i = 0; i < n; ++i )
    {
      std::vector< int > row;
      if( desc == 0 ) row.assign( m[ i ].begin(), m[ i ].end() );                       // sorted unique
      else if( desc == 1 ) { row = dup[ i ]; }                                          // anything
      else if( desc == 2 ) { row = dup[ i ]; std::sort( row.begin(), row.end(), Less< T > {} ); } // sorted with duplicates
      else { RefSet< T > seen; for( int x : dup[ i ] ) if( seen.insert( x ).second ) row.push_back( x ); } // unsorted, no duplicates
      anyDup = anyDup || row.size() != m[ i ].size();
      unsorted = unsorted || !std::is_sorted( row.begin(), row.end(), Less< T > {} );
      std::vector< T > v; for( int x : row ) v.push_back( mk< T >( x ) );
      src.appendArray( v.begin(), v.end() );
      if( s.boolean( 0.3 ) ) src.setCapacityOfArray( i, INDEX( row.size() + s.range( 0, 5 ) ) );
    }
    AoS dst;
    if( s.boolean() ) { int const k = s.range( 1, 5 ); dst.resize( k ); for( int i = 0; i < k; ++i ) { dst.insertIntoSet( i, mk< T >( i ) ); dst.insertIntoSet( i, mk< T >( 77 ) ); } }
    long const cap = src.valueCapacity();
    dst.assimilate( std::move( src ), desc == 0 ? sam::SORTED_UNIQUE : desc == 1 ? sam::UNSORTED_WITH_DUPLICATES : desc == 2 ? sam::SORTED_WITH_DUPLICATES : sam::UNSORTED_NO_DUPLICATES );
    CHECK_EQ( long( src.size() ), 0l, "the donor is not empty" );
    CHECK_EQ( long( dst.valueCapacity() ), cap );
    auto check = [&]( char const * w )
    {
      CHECK_EQ( long( dst.size() ), long( m.size() ), w );
      long total = 0;
      for( std::size_t i = 0; i < m.size(); ++i )
      {
        CHECK_EQ( long( dst.sizeOfSet( i ) ), long( m[ i ].size() ), "size of set ", i, " ", w );
        long j = 0; for( int x : m[ i ] ) { CHECK_EQ( val( dst( i, j ) ), x, "value (", i, ", ", j, ") ", w ); ++j; }
        total += m[ i ].size();
      }
      checkLedger( isTracked< T > ? total : -1, w );
    };
    check( "assimilate" );
    // The donor can be used again.
    src.resize( 2 ); src.emplaceBack( 0, mk< T >( 5 ) ); CHECK_EQ( val( src( 0, 0 ) ), 5 ); src.resize( 0 );
    for( std::size_t i = 0; i < m.size(); ++i ) { int const x = s.range( 0, domain - 1 ); CHECK_EQ( dst.insertIntoSet( i, mk< T >( x ) ), m[ i ].insert( x ).second ); }
    check( "insertion after assimilate" );
    // And back: the sets become arrays.
    AoA back;
    if( s.boolean() ) { back.resize( 3 ); back.emplaceBack( 1, mk< T >( 4 ) ); }
    back.assimilate( std::move( dst ) );
    CHECK_EQ( long( dst.size() ), 0l );
    CHECK_EQ( long( back.size() ), long( m.size() ) );
    for( std::size_t i = 0; i < m.size(); ++i ) { CHECK_EQ( long( back.sizeOfArray( i ) ), long( m[ i ].size() ) ); long j = 0; for( int x : m[ i ] ) { CHECK_EQ( val( back( i, j ) ), x ); ++j; } }
    if( desc == 0 ? n > 1 : desc == 3 ? unsorted : anyDup ) s.nontrivial();
    s.label( "description " + std::to_string( desc ) );
  }
  checkLedger( 0, "destruction" );
}
static char const * const rule = "at least two changes of the sets, two batch operations and a removal";
static char const * const rule2 = "the input needs the declared treatment";
static Registrar r1( "aos.int", history< int, std::ptrdiff_t >, 6000, rule, true );
static Registrar r2( "aos.tracked", history< Tracked, int >, 6000, rule, true );
static Registrar r3( "aos.string", history< std::string, std::ptrdiff_t >, 4000, rule, true );
static Registrar r3x( "aos.placed", history< Placed, int >, 3000, rule, true );
static Registrar r4( "aos.assimilate.int", assimilation< int, std::ptrdiff_t >, 4000, rule2, true );
static Registrar r5( "aos.assimilate.tracked", assimilation< Tracked, int >, 4000, rule2, true );
static Registrar r6( "aos.assimilate.string", assimilation< std::string, std::ptrdiff_t >, 2000, rule2, true );
static Registrar r7x( "aos.assimilate.placed", assimilation< Placed, std::ptrdiff_t >, 2000, rule2, true );
