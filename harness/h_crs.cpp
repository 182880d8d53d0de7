// C22: a CRS matrix is a map from (row, column) to value.
#include "ragged.hpp"
using namespace pbt;
using namespace lv;

template< typename T, typename COL, typename INDEX >
void history( Src & s )
{
  using A = LvArray::CRSMatrix< T, COL, INDEX, MallocBuffer >;
  constexpr bool numeric = std::is_arithmetic< T >::value;
  resetLedger();
  {
    std::vector< RefRow > m;
    std::vector< long > minCap, maxCap;
    long const f = s.large( 40 );
    bool const big = f > 1 || s.boolean( 0.15 );
    long cols = s.boolean( 0.05 ) ? 0 : big ? 400 * std::min( f, 10l ) : s.boolean() ? s.range( 1, 12 ) : s.range( 1, 100 );
    int next = 1;
    auto fresh = [&]() { return next++ % 10000; };
    std::optional< A > oa;
    if( s.boolean( 0.3 ) ) { oa.emplace(); oa->resize( big ? 1 : 0, INDEX( cols ), 0 ); if( big ) { m.emplace_back(); minCap.push_back( 0 ); maxCap.push_back( cols ); } }
    else { int const n = s.range< int >( big ? 1 : 0, 8 * f ), c = s.range< int >( 0, 6 * f ); LOG( s, "CRSMatrix( " << n << ", " << cols << ", " << c << " )" ); oa.emplace( INDEX( n ), INDEX( cols ), INDEX( c ) ); m.resize( n ); minCap.assign( n, c ); maxCap.assign( n, std::max< long >( c, cols ) ); }
    A & a = *oa;
    std::size_t n = 0;
    int batches = 0, removed = 0, added = 0;
    auto colsOf = [&]( RefRow const & r ) { std::set< int > c; for( auto const & p : r ) c.insert( p.first ); return c; };
    auto column = [&]( RefRow const & r ) { return r.empty() || s.boolean() ? s.range( 0, int( cols ) - 1 ) : int( std::next( r.begin(), s.range< int >( 0, r.size() - 1 ) )->first ); };
    auto insertBatch = [&]( auto const & target, long i, std::vector< int > const & b )
    {
      std::vector< COL > c( b.begin(), b.end() );
      std::vector< T > v; std::vector< int > raw;
      for( std::size_t k = 0; k < b.size(); ++k ) { raw.push_back( fresh() ); v.push_back( mk< T >( raw.back() ) ); }
      long want = 0;
      for( std::size_t k = 0; k < b.size(); ++k ) want += m[ i ].emplace( b[ k ], raw[ k ] ).second;
      CHECK_EQ( long( target.insertNonZeros( INDEX( i ), c.data(), v.data(), INDEX( c.size() ) ) ), want, "entries inserted" );
      CHECK( c == std::vector< COL >( b.begin(), b.end() ), "the columns were modified" );
      for( std::size_t k = 0; k < b.size(); ++k ) CHECK_EQ( val( v[ k ] ), raw[ k ], "the values were modified" );
    };
    auto mutableBatch = [&]( long i, std::vector< int > const & b )
    {
      std::vector< COL > c( b.begin(), b.end() );
      std::vector< T > v; std::vector< int > raw;
      for( std::size_t k = 0; k < b.size(); ++k ) { raw.push_back( fresh() ); v.push_back( mk< T >( raw.back() ) ); }
      long want = 0;
      for( std::size_t k = 0; k < b.size(); ++k ) want += m[ i ].emplace( b[ k ], raw[ k ] ).second;
      CHECK_EQ( long( a.insertNonZeros( INDEX( i ), c.data(), v.data(), INDEX( c.size() ) ) ), want, "entries inserted" );
      CHECK( c == std::vector< COL >( b.begin(), b.end() ), "the columns were modified" );
      for( std::size_t k = 0; k < b.size(); ++k ) CHECK_EQ( val( v[ k ] ), raw[ k ], "the values were modified" );
    };
    while( s.more( n, 60, 22 ) )
    {
      Span sp( s ); ++n;
      long const size = m.size();
      int const op = s.weighted( { 5, 6, 3, 4, 5, 1, 0.5, 1, 1, 0.7, 0.7, 0.7, 0.5, 2, 1 } );
      bool const needsRow = op <= 4 || op == 7 || op == 8 || op == 13 || op == 14;
      if( needsRow && size == 0 ) continue;
      if( needsRow && op != 7 && op != 8 && cols == 0 ) continue;
      long const i = needsRow ? s.range< long >( 0, size - 1 ) : 0;
      long const len = needsRow ? long( m[ i ].size() ) : 0;
      std::size_t const maxBatch = big ? 150 * std::min( f, 10l ) : 20;
      auto const before = a.getEntries();
      switch( op )
      {
        case 0:
        {
          long const src = s.boolean( 0.2 ) ? s.range< long >( 0, size - 1 ) : -1;
          if( src >= 0 && !m[ src ].empty() )
          {
            // The entry may be one of the entries of the matrix.
            long const at = s.range< long >( 0, long( m[ src ].size() ) - 1 ); int const c = column( m[ i ] ), own = std::next( m[ src ].begin(), at )->second; bool const view = len < long( a.nonZeroCapacity( i ) ) && s.boolean();
            LOG( s, "insertNonZero( " << i << ", " << c << ", entry " << at << " of row " << src << " )" ); s.label( "own entry" );
            T const & t = a.getEntries( INDEX( src ) )[ at ];
            bool const added = view ? a.toView().insertNonZero( INDEX( i ), COL( c ), t ) : a.insertNonZero( INDEX( i ), COL( c ), t );
            CHECK_EQ( added, m[ i ].emplace( c, own ).second );
            break;
          }
          int const c = column( m[ i ] ), v = fresh(); LOG( s, "insertNonZero( " << i << ", " << c << ", " << v << " )" ); T const t = mk< T >( v ); CHECK_EQ( a.insertNonZero( INDEX( i ), COL( c ), t ), m[ i ].emplace( c, v ).second ); CHECK_EQ( val( t ), v ); break; }
        case 1: { auto const b = batchFor( s, colsOf( m[ i ] ), cols, maxBatch ); LOG( s, "insertNonZeros( " << i << ", " << b.size() << " )" ); mutableBatch( i, b ); ++batches; break; }
        case 2: { int const c = column( m[ i ] ); LOG( s, "removeNonZero( " << i << ", " << c << " )" ); CHECK_EQ( a.removeNonZero( INDEX( i ), COL( c ) ), m[ i ].erase( c ) == 1 ); ++removed; break; }
        case 3:
        {
          auto const b = batchFor( s, colsOf( m[ i ] ), cols, 20 * f ); LOG( s, "removeNonZeros( " << i << ", " << b.size() << " )" );
          std::vector< COL > c( b.begin(), b.end() ); long want = 0; for( int x : b ) want += m[ i ].erase( x );
          CHECK_EQ( long( a.removeNonZeros( INDEX( i ), c.data(), INDEX( c.size() ) ) ), want, "entries removed" ); ++batches; ++removed; break;
        }
        case 4:
          if constexpr( numeric )
          {
            // Columns that exist, each once and in order, or in any order and with repetitions for the unsorted form.
            int const how = s.range( 0, 3 );
            std::vector< int > const have = [&]() { auto const c = colsOf( m[ i ] ); return std::vector< int >( c.begin(), c.end() ); }();
            std::vector< COL > c; std::vector< T > v;
            std::set< int > sel;
            std::size_t const k = have.empty() ? 0 : s.length( s.boolean() ? have.size() : have.size() / 5 );
            for( std::size_t q = 0; q < k; ++q ) { int const x = have[ s.range< int >( 0, have.size() - 1 ) ]; if( how == 3 ) c.push_back( COL( x ) ); else sel.insert( x ); }
            if( how != 3 ) c.assign( sel.begin(), sel.end() );
            for( COL x : c ) { int const d = s.range( -20, 20 ); v.push_back( T( d ) ); m[ i ][ x ] += d; }
            int const via = s.range( 0, 2 ), policy = s.range( 0, 1 );
            LOG( s, "addToRow " << how << " via " << via << " " << c.size() << " of " << have.size() );
            auto call = [&]( auto const & x, auto pol )
            {
              using P = decltype( pol );
              INDEX const nc = INDEX( c.size() );
              if( how == 0 ) x.template addToRow< P >( INDEX( i ), c.data(), v.data(), nc );
              else if( how == 1 ) x.template addToRowBinarySearch< P >( INDEX( i ), c.data(), v.data(), nc );
              else if( how == 2 ) x.template addToRowLinearSearch< P >( INDEX( i ), c.data(), v.data(), nc );
              else x.template addToRowBinarySearchUnsorted< P >( INDEX( i ), c.data(), v.data(), nc );
            };
            auto target = [&]( auto pol ) { if( via == 0 ) call( a, pol ); else if( via == 1 ) call( a.toView(), pol ); else call( a.toViewConstSizes(), pol ); };
            if( policy == 0 ) target( RAJA::seq_atomic {} ); else target( RAJA::builtin_atomic {} );
            if( have.size() > 64 && how == 0 && c.size() > 0 && c.size() < have.size() / 4 ) s.label( "addToRow into a long row" );
            ++added;
          }
          break;
        case 5:
        {
          int const v = fresh(); LOG( s, "setValues( " << v << " )" ); T const t = mk< T >( v ); int const via = s.range( 0, 2 );
          if( via == 0 ) a.template setValues< RAJA::loop_exec >( t ); else if( via == 1 ) a.toView().template setValues< RAJA::loop_exec >( t ); else a.toViewConstSizes().template setValues< RAJA::loop_exec >( t );
          for( auto & r : m ) for( auto & p : r ) p.second = v;
          break;
        }
        case 6: if constexpr( numeric ) { LOG( s, "zero" ); if( s.boolean() ) a.zero(); else a.toViewConstSizes().zero(); for( auto & r : m ) for( auto & p : r ) p.second = 0; } break;
        case 7:
        {
          long const c = s.length( 30 * f ); LOG( s, "setRowCapacity( " << i << ", " << c << " )" ); a.setRowCapacity( INDEX( i ), INDEX( c ) );
          CHECK_EQ( long( a.nonZeroCapacity( INDEX( i ) ) ), std::min( c, cols ) );
          while( long( m[ i ].size() ) > c ) m[ i ].erase( std::prev( m[ i ].end() ) );
          minCap[ i ] = std::min( c, cols ); maxCap[ i ] = cols; break;
        }
        case 8: { long const c = s.length( 30 * f ); LOG( s, "reserveNonZeros( " << i << ", " << c << " )" ); a.reserveNonZeros( INDEX( i ), INDEX( c ) ); minCap[ i ] = std::min( cols, std::max( minCap[ i ], c ) ); maxCap[ i ] = std::max( maxCap[ i ], cols ); break; }
        case 9: LOG( s, "compress" ); a.compress(); for( long k = 0; k < size; ++k ) { CHECK_EQ( long( a.nonZeroCapacity( INDEX( k ) ) ), long( m[ k ].size() ) ); minCap[ k ] = 0; maxCap[ k ] = cols; } break;
        case 10:
        {
          long lo = 0; for( long k = 0; k < size; ++k ) if( !m[ k ].empty() ) lo = std::max< long >( lo, m[ k ].rbegin()->first + 1 );
          long const nr = s.boolean() ? size : long( s.length( 12 * f ) ), nc = s.range< long >( lo, std::max< long >( lo, 125 * f ) ), c = s.boolean() ? 0 : s.range< long >( 1, 6 * f );
          LOG( s, "resize( " << nr << ", " << nc << ", " << c << " )" ); a.resize( INDEX( nr ), INDEX( nc ), INDEX( c ) );
          cols = nc; m.resize( nr ); minCap.resize( nr, c ); maxCap.resize( nr, std::max( c, cols ) );
          for( auto & x : maxCap ) x = std::max( x, cols );
          break;
        }
        case 11: { long const k = s.length( 100 * f ); LOG( s, "reserveNonZeros( " << k << " )" ); a.reserveNonZeros( INDEX( k ) ); CHECK( long( a.nonZeroCapacity() ) >= k ); break; }
        case 12:
        {
          std::vector< INDEX > caps( s.length( 10 * f ) ); for( auto & c : caps ) c = s.range< INDEX >( 0, 6 * f );
          cols = s.range< long >( 0, 120 * f );
          LOG( s, "resizeFromRowCapacities( " << caps.size() << ", " << cols << " )" );
          a.template resizeFromRowCapacities< RAJA::loop_exec >( INDEX( caps.size() ), INDEX( cols ), caps.data() );
          m.assign( caps.size(), {} ); minCap.assign( caps.begin(), caps.end() ); maxCap.assign( caps.size(), std::max< long >( cols, 6 * f ) );
          for( std::size_t k = 0; k < caps.size(); ++k ) CHECK_EQ( long( a.nonZeroCapacity( INDEX( k ) ) ), long( caps[ k ] ) );
          break;
        }
        case 13:
        {
          auto const v = a.toView();
          long const spare = a.nonZeroCapacity( INDEX( i ) ) - len;
          int const what = s.range( 0, 3 );
          LOG( s, "view operation " << what << " on " << i );
          if( what == 0 && spare > 0 ) { int const c = column( m[ i ] ), x = fresh(); CHECK_EQ( v.insertNonZero( INDEX( i ), COL( c ), mk< T >( x ) ), m[ i ].emplace( c, x ).second ); }
          else if( what == 1 )
          {
            auto b = batchFor( s, colsOf( m[ i ] ), cols, 12 * f );
            std::vector< int > fit; long room = spare; for( int x : b ) if( m[ i ].count( x ) || room-- > 0 ) fit.push_back( x );
            insertBatch( v, i, fit );
          }
          else if( what == 2 ) { int const c = column( m[ i ] ); CHECK_EQ( v.removeNonZero( INDEX( i ), COL( c ) ), m[ i ].erase( c ) == 1 ); }
          else { auto const b = batchFor( s, colsOf( m[ i ] ), cols, 12 * f ); std::vector< COL > c( b.begin(), b.end() ); long want = 0; for( int x : b ) want += m[ i ].erase( x ); CHECK_EQ( long( v.removeNonZeros( INDEX( i ), c.data(), INDEX( c.size() ) ) ), want ); }
          CHECK( a.getEntries() == before, "a view reallocated" );
          break;
        }
        default:
          if( len > 0 )
          {
            long const j = s.range< long >( 0, len - 1 ); int const x = fresh(); int const how = s.range( 0, 2 );
            LOG( s, "write entry " << i << ", " << j );
            if( how == 0 ) a.getEntries( INDEX( i ) )[ j ] = mk< T >( x ); else if( how == 1 ) a.toView().getEntries( INDEX( i ) )[ j ] = mk< T >( x ); else a.toViewConstSizes().getEntries( INDEX( i ) )( j ) = mk< T >( x );
            std::next( m[ i ].begin(), j )->second = x;
          }
      }
      long total = 0;
      for( auto const & r : m ) total += r.size();
      checkLedger( isTracked< T > ? total : -1, "operation" );
      A const & c = a;
      auto const v = a.toView(); auto const vs = a.toViewConstSizes(); auto const vc = a.toViewConst(); auto const spv = a.toSparsityPatternView();
      auto same = [&]( auto const & x, char const * w )
      {
        CHECK_EQ( long( x.numRows() ), long( m.size() ), w );
        CHECK_EQ( long( x.numColumns() ), cols, w );
        CHECK_EQ( long( x.numNonZeros() ), total, w );
        CHECK_EQ( x.empty(), total == 0, w );
        CHECK_EQ( long( x.nonZeroCapacity() ), long( a.nonZeroCapacity() ), w );
        for( std::size_t k = 0; k < m.size(); ++k )
        {
          CHECK_EQ( long( x.numNonZeros( INDEX( k ) ) ), long( m[ k ].size() ), w, " row ", k );
          CHECK_EQ( x.empty( INDEX( k ) ), m[ k ].empty(), w );
          long j = 0;
          for( auto const & p : m[ k ] )
          {
            CHECK_EQ( long( x.getColumns( INDEX( k ) )[ j ] ), p.first, w, " row ", k );
            ++j;
          }
        }
      };
      same( c, "matrix" ); same( v, "view" ); same( vs, "const sizes view" ); same( vc, "const view" ); same( spv, "sparsity pattern view" );
      for( std::size_t k = 0; k < m.size(); ++k )
      {
        long const cap = c.nonZeroCapacity( INDEX( k ) );
        CHECK( cap >= std::max< long >( m[ k ].size(), std::min( minCap[ k ], cols ) ) && cap <= maxCap[ k ], "row ", k, " has capacity ", cap, ", requested ", minCap[ k ], ", limit ", maxCap[ k ] );
        long j = 0;
        auto const e = c.getEntries( INDEX( k ) );
        CHECK_EQ( long( e.size() ), long( m[ k ].size() ) );
        for( auto const & p : m[ k ] )
        {
          CHECK_EQ( val( e[ j ] ), p.second, "entry (", k, ", ", p.first, ")" );
          CHECK( &v.getEntries( INDEX( k ) )[ j ] == &e[ j ] && &vs.getEntries( INDEX( k ) )[ j ] == &e[ j ] && &vc.getEntries( INDEX( k ) )[ j ] == &e[ j ] && &e[ j ] == c.getEntries() + c.getOffsets()[ k ] + j );
          ++j;
        }
      }
      checkLayout( vc, m.size(), c.nonZeroCapacity() );
      if( !m.empty() && cols > 0 ) { long const k = s.range< long >( 0, m.size() - 1 ); int const x = column( m[ k ] ); CHECK_EQ( c.empty( INDEX( k ), COL( x ) ), m[ k ].count( x ) == 0 ); CHECK_EQ( vc.empty( INDEX( k ), COL( x ) ), m[ k ].count( x ) == 0 ); }
    }
    if( batches > 1 && removed > 0 && ( !numeric || added > 0 ) ) s.nontrivial();
  }
  checkLedger( 0, "destruction" );
}
static char const * const rule = "two batch operations, a removal and (for numbers) an addition to a row";
static Registrar r1( "crs.double", history< double, int, std::ptrdiff_t >, 7000, rule, true );
static Registrar r2( "crs.tracked", history< Tracked, int, std::ptrdiff_t >, 6000, rule, true );
static Registrar r3( "crs.string", history< std::string, short, int >, 4000, rule, true );
static Registrar r4( "crs.int", history< int, unsigned int, int >, 5000, rule, true );
static Registrar r5x( "crs.placed", history< Placed, int, int >, 3000, rule, true );
