// C21: a sparsity pattern holds exactly the inserted positions.
#include "ragged.hpp"
using namespace pbt;
using namespace lv;

template< typename COL, typename INDEX >
void history( Src & s )
{
  using A = LvArray::SparsityPattern< COL, INDEX, MallocBuffer >;
  std::vector< std::set< int > > m;
  std::vector< long > minCap, maxCap;
  long const f = s.large( 40 );
  long cols = s.boolean( 0.1 ) ? 0 : s.boolean() && f == 1 ? s.range( 1, 12 ) : s.range< long >( 1, 120 * f );
  std::optional< A > oa;
  if( s.boolean( 0.3 ) ) { oa.emplace(); oa->resize( 0, INDEX( cols ), 0 ); }
  else { int const n = s.range< int >( 0, 8 * f ), c = s.range< int >( 0, 6 * f ); LOG( s, "SparsityPattern( " << n << ", " << cols << ", " << c << " )" ); if( c == 0 && s.boolean() ) oa.emplace( INDEX( n ), INDEX( cols ) ); else oa.emplace( INDEX( n ), INDEX( cols ), INDEX( c ) ); m.resize( n ); minCap.assign( n, c ); maxCap.assign( n, std::max< long >( c, cols ) ); }
  A & a = *oa;
  std::size_t n = 0;
  int structural = 0, batches = 0, removed = 0;
  auto column = [&]( std::set< int > const & y ) { return y.empty() || s.boolean() ? s.range( 0, int( cols ) - 1 ) : *std::next( y.begin(), s.range< int >( 0, y.size() - 1 ) ); };
  auto withCols = [&]( std::vector< int > const & v, auto && f )
  {
    int const how = s.range( 0, 2 );
    LOG( s, "  " << v.size() << " columns as container " << how );
    if( how == 0 ) { std::vector< COL > c( v.begin(), v.end() ); f( c.data(), c.data() + c.size() ); CHECK( c == std::vector< COL >( v.begin(), v.end() ), "the argument was modified" ); }
    else if( how == 1 ) { std::list< COL > c( v.begin(), v.end() ); f( c.begin(), c.end() ); }
    else { std::set< COL > c( v.begin(), v.end() ); f( c.begin(), c.end() ); }
  };
  while( s.more( n, 60, 22 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size();
    int const op = s.weighted( { 2, 6, 6, 3, 4, 1, 1, 0.5, 1, 0.7, 0.7, 0.5, 2 } );
    bool const needsRow = ( op >= 1 && op <= 6 ) || op == 12;
    if( needsRow && size == 0 ) continue;
    if( ( ( op >= 1 && op <= 4 ) || op == 12 ) && cols == 0 ) continue;
    long const i = needsRow ? s.range< long >( 0, size - 1 ) : 0;
    long const len = needsRow ? long( m[ i ].size() ) : 0;
    COL const * const before = a.getColumns();
    switch( op )
    {
      case 0: { int const c = s.range< int >( 0, 6 * f ); LOG( s, "appendRow( " << c << " )" ); if( c == 0 && s.boolean() ) a.appendRow(); else a.appendRow( INDEX( c ) ); m.emplace_back(); minCap.push_back( std::min< long >( c, cols ) ); maxCap.push_back( cols ); CHECK_EQ( long( a.nonZeroCapacity( size ) ), std::min< long >( c, cols ) ); ++structural; break; }
      case 1:
      {
        int const v = column( m[ i ] ); LOG( s, "insertNonZero( " << i << ", " << v << " )" );
        bool const fits = len < long( a.nonZeroCapacity( INDEX( i ) ) );
        CHECK_EQ( a.insertNonZero( INDEX( i ), COL( v ) ), m[ i ].insert( v ).second );
        if( fits ) CHECK( a.getColumns() == before, "reallocated within the capacity of the row" );
        break;
      }
      case 2: { auto const b = batchFor( s, m[ i ], cols, 20 * f ); LOG( s, "insertNonZeros( " << i << " )" ); long want = 0; for( int v : b ) want += m[ i ].insert( v ).second; withCols( b, [&]( auto f, auto l ) { CHECK_EQ( long( a.insertNonZeros( INDEX( i ), f, l ) ), want, "columns inserted" ); } ); ++batches; break; }
      case 3: { int const v = column( m[ i ] ); LOG( s, "removeNonZero( " << i << ", " << v << " )" ); CHECK_EQ( a.removeNonZero( INDEX( i ), COL( v ) ), m[ i ].erase( v ) == 1 ); ++removed; break; }
      case 4: { auto const b = batchFor( s, m[ i ], cols, 20 * f ); LOG( s, "removeNonZeros( " << i << " )" ); long want = 0; for( int v : b ) want += m[ i ].erase( v ); withCols( b, [&]( auto f, auto l ) { CHECK_EQ( long( a.removeNonZeros( INDEX( i ), f, l ) ), want, "columns removed" ); } ); ++batches; ++removed; break; }
      case 5:
      {
        long const c = s.length( 30 * f ); LOG( s, "setRowCapacity( " << i << ", " << c << " )" ); a.setRowCapacity( INDEX( i ), INDEX( c ) );
        CHECK_EQ( long( a.nonZeroCapacity( INDEX( i ) ) ), std::min( c, cols ), "capacity of row ", i );
        while( long( m[ i ].size() ) > c ) m[ i ].erase( std::prev( m[ i ].end() ) );
        minCap[ i ] = std::min( c, cols ); maxCap[ i ] = cols; break;
      }
      case 6: { long const c = s.length( 30 * f ); LOG( s, "reserveNonZeros( " << i << ", " << c << " )" ); a.reserveNonZeros( INDEX( i ), INDEX( c ) ); minCap[ i ] = std::min( cols, std::max( minCap[ i ], c ) ); maxCap[ i ] = std::max( maxCap[ i ], cols ); break; }
      case 7: LOG( s, "compress" ); a.compress(); for( long k = 0; k < size; ++k ) { CHECK_EQ( long( a.nonZeroCapacity( INDEX( k ) ) ), long( m[ k ].size() ), "capacity after compress" ); minCap[ k ] = 0; maxCap[ k ] = cols; } break;
      case 8:
      {
        // Fewer columns only as far as no row has one of them.
        long lo = 0; for( long k = 0; k < size; ++k ) if( !m[ k ].empty() ) lo = std::max< long >( lo, *m[ k ].rbegin() + 1 );
        long const nr = s.boolean() ? size : long( s.length( 12 * f ) ), nc = s.range< long >( lo, std::max< long >( lo, 125 * f ) ), c = s.boolean() ? 0 : s.range< long >( 1, 6 * f );
        LOG( s, "resize( " << nr << ", " << nc << ", " << c << " )" ); a.resize( INDEX( nr ), INDEX( nc ), INDEX( c ) );
        cols = nc; m.resize( nr ); minCap.resize( nr, c ); maxCap.resize( nr, std::max( c, cols ) );
        for( auto & x : maxCap ) x = std::max( x, cols );
        ++structural; break;
      }
      case 9: { long const k = s.length( 30 * f ); LOG( s, "reserveRows( " << k << " )" ); a.reserveRows( INDEX( k ) ); break; }
      case 10: { long const k = s.length( 100 * f ); LOG( s, "reserveNonZeros( " << k << " )" ); a.reserveNonZeros( INDEX( k ) ); CHECK( long( a.nonZeroCapacity() ) >= k ); break; }
      case 11:
      {
        std::vector< INDEX > caps( s.length( 10 * f ) ); for( auto & c : caps ) c = s.range< INDEX >( 0, 6 * f );
        cols = s.range< long >( 0, 120 * f );
        LOG( s, "resizeFromRowCapacities( " << caps.size() << ", " << cols << " )" );
        a.template resizeFromRowCapacities< RAJA::loop_exec >( INDEX( caps.size() ), INDEX( cols ), caps.data() );
        m.assign( caps.size(), {} ); minCap.assign( caps.begin(), caps.end() ); maxCap.assign( caps.size(), std::max< long >( cols, 6 * f ) );
        for( std::size_t k = 0; k < caps.size(); ++k ) CHECK_EQ( long( a.nonZeroCapacity( INDEX( k ) ) ), long( caps[ k ] ) );
        ++structural; break;
      }
      default:
      {
        auto const v = a.toView();
        long const spare = a.nonZeroCapacity( INDEX( i ) ) - len;
        int const what = s.range( 0, 3 );
        LOG( s, "view operation " << what << " on " << i );
        if( what == 0 && spare > 0 ) { int const x = column( m[ i ] ); CHECK_EQ( v.insertNonZero( INDEX( i ), COL( x ) ), m[ i ].insert( x ).second ); }
        else if( what == 1 )
        {
          auto b = batchFor( s, m[ i ], cols, 12 * f );
          std::vector< int > fit; long room = spare; for( int x : b ) if( m[ i ].count( x ) || room-- > 0 ) fit.push_back( x );
          long want = 0; for( int x : fit ) want += m[ i ].insert( x ).second;
          withCols( fit, [&]( auto f, auto l ) { CHECK_EQ( long( v.insertNonZeros( INDEX( i ), f, l ) ), want ); } );
        }
        else if( what == 2 ) { int const x = column( m[ i ] ); CHECK_EQ( v.removeNonZero( INDEX( i ), COL( x ) ), m[ i ].erase( x ) == 1 ); }
        else { auto const b = batchFor( s, m[ i ], cols, 12 * f ); long want = 0; for( int x : b ) want += m[ i ].erase( x ); withCols( b, [&]( auto f, auto l ) { CHECK_EQ( long( v.removeNonZeros( INDEX( i ), f, l ) ), want ); } ); }
        CHECK( a.getColumns() == before, "a view reallocated" );
      }
    }
    A const & c = a;
    auto const v = a.toView(); auto const vc = a.toViewConst();
    long total = 0;
    for( auto const & r : m ) total += r.size();
    auto same = [&]( auto const & x, char const * w )
    {
      CHECK_EQ( long( x.numRows() ), long( m.size() ), w );
      CHECK_EQ( long( x.numColumns() ), cols, w );
      CHECK_EQ( long( x.numNonZeros() ), total, w );
      CHECK_EQ( x.empty(), total == 0, w );
      CHECK( x.getColumns() == a.getColumns() && x.getOffsets() == a.getOffsets(), w );
      CHECK_EQ( long( x.nonZeroCapacity() ), long( a.nonZeroCapacity() ), w );
      for( std::size_t k = 0; k < m.size(); ++k )
      {
        CHECK_EQ( long( x.numNonZeros( INDEX( k ) ) ), long( m[ k ].size() ), w, " row ", k );
        CHECK_EQ( x.empty( INDEX( k ) ), m[ k ].empty(), w );
        CHECK_EQ( long( x.getColumns( INDEX( k ) ).size() ), long( m[ k ].size() ), w );
        long const cap = x.nonZeroCapacity( INDEX( k ) );
        CHECK( cap >= std::max< long >( m[ k ].size(), std::min( minCap[ k ], cols ) ) && cap <= maxCap[ k ], w, " row ", k, " has capacity ", cap, ", requested ", minCap[ k ], ", limit ", maxCap[ k ] );
        long j = 0;
        for( int q : m[ k ] ) { CHECK_EQ( long( x.getColumns( INDEX( k ) )[ j ] ), long( q ), w, " row ", k ); CHECK_EQ( long( x.getColumns()[ x.getOffsets()[ k ] + j ] ), long( q ), w ); ++j; }
      }
    };
    same( c, "pattern" ); same( v, "view" ); same( vc, "const view" );
    checkLayout( vc, m.size(), c.nonZeroCapacity() );
    if( !m.empty() && cols > 0 ) { long const k = s.range< long >( 0, m.size() - 1 ); int const x = column( m[ k ] ); CHECK_EQ( c.empty( INDEX( k ), COL( x ) ), m[ k ].count( x ) == 0, "empty( ", k, ", ", x, " )" ); CHECK_EQ( vc.empty( INDEX( k ), COL( x ) ), m[ k ].count( x ) == 0 ); }
  }
  if( structural > 0 && batches > 1 && removed > 0 ) s.nontrivial();
}

/// Shapes that cannot be represented are reported; those that can are not.
template< typename COL >
void shapes( Src & s )
{
  using A = LvArray::SparsityPattern< COL, std::ptrdiff_t, MallocBuffer >;
  constexpr long LIMIT = static_cast< long >( std::numeric_limits< COL >::max() ) + 1;
  long const nc = s.boolean() ? LIMIT + s.range( -2, 2 ) : s.range( -3, 3 );
  long const nr = s.range( -2, 3 );
  bool const byCaps = s.boolean();
  bool const bad = nc < 0 || nc > LIMIT || ( !byCaps && nr < 0 );
  LOG( s, nr << " rows " << nc << " columns" );
  std::vector< std::ptrdiff_t > caps( std::max( nr, 0l ), 1 );
  // Half made objects are not destroyed.
  alignas( A ) static unsigned char store[ sizeof( A ) ];
  A * a = new( store ) A();
  bool const err = reportsError( [&]() { if( byCaps ) a->template resizeFromRowCapacities< RAJA::loop_exec >( std::max( nr, 0l ), nc, caps.data() ); else a->resize( nr, nc, 0 ); } );
  CHECK_EQ( err, bad, nr, " rows and ", nc, " columns" );
  if( !err ) { CHECK_EQ( long( a->numColumns() ), nc ); CHECK_EQ( long( a->numRows() ), byCaps ? std::max( nr, 0l ) : nr ); a->~A(); }
  if( bad || nc == LIMIT ) s.nontrivial();
}
static char const * const rule = "a change of the shape, two batch operations and a removal";
static Registrar r1( "sparsity.int", history< int, std::ptrdiff_t >, 8000, rule, true );
static Registrar r2( "sparsity.short", history< short, int >, 6000, rule, true );
static Registrar r3( "sparsity.uint", history< unsigned int, std::ptrdiff_t >, 5000, rule, true );
static Registrar r4( "sparsity.long", history< long, int >, 5000, rule, true );
static Registrar r5( "sparsity.shapes.char", shapes< signed char >, 1500, "an invalid shape or the largest valid one", false );
static Registrar r6( "sparsity.shapes.short", shapes< short >, 1500, "an invalid shape or the largest valid one", false );
