// C23: conversions and bulk construction between ragged containers lose nothing.
#include "ragged.hpp"
using namespace pbt;
using namespace lv;
namespace sm = LvArray::sortedArrayManipulation;
using Rows = std::vector< std::vector< int > >;

template< typename T > bool less( int a, int b ) { return Less< T >()( a, b ); }

/// Give a ragged container some history: spare capacity, gaps, empty rows, compressed storage.
template< typename A >
void roughen( Src & s, A & a, long n )
{
  int const k = s.range( 0, 3 );
  for( int q = 0; q < k; ++q )
  {
    int const what = s.range( 0, 3 );
    if( what == 0 ) { LOG( s, "compress" ); a.compress(); }
    else if( what == 1 && n > 0 ) { long const i = s.range< long >( 0, n - 1 ), c = s.length( 12 * s.large( 50 ) ); LOG( s, "reserve row " << i << " " << c ); if constexpr( requires { a.reserveCapacityOfSet( i, c ); } ) a.reserveCapacityOfSet( i, c ); else if constexpr( requires { a.reserveNonZeros( i, c ); } ) a.reserveNonZeros( i, c ); else { if( c >= long( a.sizeOfArray( i ) ) ) a.setCapacityOfArray( i, c ); } }
    else if( what == 2 ) { long const c = s.length( 60 * s.large( 50 ) ); LOG( s, "reserveValues " << c ); if constexpr( requires { a.reserveValues( c ); } ) a.reserveValues( c ); else a.reserveNonZeros( c ); }
    else if( what == 3 ) { long const c = n + s.range( 0, 9 ); LOG( s, "reserve " << c ); if constexpr( requires { a.reserve( c ); } ) a.reserve( c ); else if constexpr( requires { a.reserveRows( c ); } ) a.reserveRows( c ); }
  }
}

template< typename T, typename AOA >
void fillArrays( Src & s, AOA & a, Rows const & rows )
{
  int const how = s.range( 0, 3 );
  LOG( s, "fill " << how );
  using I = typename AOA::IndexType;
  if( how == 0 ) { a.resize( I( rows.size() ), I( s.range( 0, 5 ) ) ); for( std::size_t i = 0; i < rows.size(); ++i ) for( int v : rows[ i ] ) a.emplaceBack( I( i ), mk< T >( v ) ); }
  else if( how == 1 ) for( auto const & r : rows ) { std::vector< T > c; for( int v : r ) c.push_back( mk< T >( v ) ); a.appendArray( c.begin(), c.end() ); }
  else if( how == 2 ) { for( auto it = rows.rbegin(); it != rows.rend(); ++it ) { std::vector< T > c; for( int v : *it ) c.push_back( mk< T >( v ) ); a.insertArray( I( 0 ), c.begin(), c.end() ); } }
  else
  {
    std::vector< I > caps; for( auto const & r : rows ) caps.push_back( I( r.size() + s.range( 0, 4 ) ) );
    a.template resizeFromCapacities< RAJA::loop_exec >( I( rows.size() ), caps.data() );
    auto const v = a.toView();
    for( std::size_t i = 0; i < rows.size(); ++i ) for( int x : rows[ i ] ) v.emplaceBack( I( i ), mk< T >( x ) );
  }
}

template< typename T, typename AOS >
void fillSets( Src & s, AOS & a, Rows const & rows )
{
  using I = typename AOS::IndexType;
  int const how = s.range( 0, 2 );
  LOG( s, "fill sets " << how );
  auto one = [&]( auto const & x ) { for( std::size_t i = 0; i < rows.size(); ++i ) { std::vector< T > c; for( int v : rows[ i ] ) c.push_back( mk< T >( v ) ); if( s.boolean() ) x.insertIntoSet( I( i ), c.begin(), c.end() ); else for( T const & t : c ) x.insertIntoSet( I( i ), t ); } };
  if( how == 0 ) { a.resize( I( rows.size() ), I( s.range( 0, 5 ) ) ); for( std::size_t i = 0; i < rows.size(); ++i ) for( int v : rows[ i ] ) a.insertIntoSet( I( i ), mk< T >( v ) ); }
  else if( how == 1 ) for( std::size_t i = 0; i < rows.size(); ++i ) { a.appendSet( I( s.range( 0, 4 ) ) ); std::vector< T > c; for( int v : rows[ i ] ) c.push_back( mk< T >( v ) ); a.insertIntoSet( I( i ), c.begin(), c.end() ); }
  else
  {
    std::vector< I > caps; for( auto const & r : rows ) caps.push_back( I( r.size() + s.range( 0, 4 ) ) );
    a.template resizeFromCapacities< RAJA::loop_exec >( I( rows.size() ), caps.data() );
    for( std::size_t i = 0; i < rows.size(); ++i ) CHECK_EQ( long( a.capacityOfSet( I( i ) ) ), long( caps[ i ] ) );
    one( a.toView() );
  }
}

inline long count( Rows const & r ) { long n = 0; for( auto const & x : r ) n += x.size(); return n; }

template< typename T, typename AOA > void sameArrays( AOA const & a, Rows const & m, char const * w )
{
  CHECK_EQ( long( a.size() ), long( m.size() ), w );
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    CHECK_EQ( long( a.sizeOfArray( i ) ), long( m[ i ].size() ), w, " array ", i );
    CHECK( long( a.capacityOfArray( i ) ) >= long( m[ i ].size() ), w );
    for( std::size_t j = 0; j < m[ i ].size(); ++j ) { CHECK_EQ( val( a( i, j ) ), m[ i ][ j ], w, " array ", i, " position ", j ); CHECK( &a( i, j ) == &a[ i ][ j ] ); }
  }
}
template< typename T, typename AOS > void sameSets( AOS const & a, Rows const & m, char const * w )
{
  CHECK_EQ( long( a.size() ), long( m.size() ), w );
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    CHECK_EQ( long( a.sizeOfSet( i ) ), long( m[ i ].size() ), w, " set ", i );
    CHECK( long( a.capacityOfSet( i ) ) >= long( m[ i ].size() ), w );
    for( std::size_t j = 0; j < m[ i ].size(); ++j ) { CHECK_EQ( val( a( i, j ) ), m[ i ][ j ], w, " set ", i, " position ", j ); CHECK( a.contains( i, mk< T >( m[ i ][ j ] ) ), w ); }
  }
}
template< typename T > Rows asSets( Rows m ) { for( auto & r : m ) { std::stable_sort( r.begin(), r.end(), less< T > ); r.erase( std::unique( r.begin(), r.end() ), r.end() ); } return m; }

/// A chain of conversions array of arrays -> array of sets -> array of arrays ...
template< typename T, typename INDEX >
void chain( Src & s )
{
  using AOA = LvArray::ArrayOfArrays< T, INDEX, MallocBuffer >;
  using AOS = LvArray::ArrayOfSets< T, INDEX, MallocBuffer >;
  resetLedger();
  {
    auto rows = [&]( long maxRow )
    {
      Rows r( s.length( 8 * s.large( 40 ) ) );
      int const dom = s.boolean() ? 8 : 60;
      int const order = s.range( 0, 3 );
      for( auto & x : r )
      {
        x.resize( s.boolean( 0.2 ) ? 0 : s.length( maxRow * s.large( 20, 0.02 ) ) );
        for( int & v : x ) v = s.range( 0, dom );
      }
      if( order == 1 || order == 3 ) for( auto & x : r ) std::stable_sort( x.begin(), x.end(), less< T > );
      if( order >= 2 ) for( auto & x : r ) { std::set< int > seen; std::vector< int > y; for( int v : x ) if( seen.insert( v ).second ) y.push_back( v ); x = y; }
      return r;
    };
    auto sorted = []( Rows const & r ) { for( auto const & x : r ) if( !std::is_sorted( x.begin(), x.end(), less< T > ) ) return false; return true; };
    auto unique = []( Rows const & r ) { for( auto const & x : r ) if( std::set< int >( x.begin(), x.end() ).size() != x.size() ) return false; return true; };
    // Two of each, so that donors and destinations have a past.
    AOA a[ 2 ]; AOS b[ 2 ];
    Rows ma[ 2 ], mb[ 2 ];
    for( int k = 0; k < 2; ++k )
    {
      LOG( s, "arrays " << k ); ma[ k ] = rows( s.boolean( 0.2 ) ? 90 : 10 ); fillArrays< T >( s, a[ k ], ma[ k ] ); roughen( s, a[ k ], ma[ k ].size() );
      LOG( s, "sets " << k ); mb[ k ] = asSets< T >( rows( 10 ) ); fillSets< T >( s, b[ k ], mb[ k ] ); roughen( s, b[ k ], mb[ k ].size() );
    }
    std::size_t n = 0;
    int there = 0, back = 0, lossy = 0;
    while( s.more( n, 16, 7 ) )
    {
      Span sp( s ); ++n;
      int const i = s.range( 0, 1 ), j = s.range( 0, 1 ), op = s.weighted( { 4, 3, 1, 1 } );
      if( op == 0 )
      {
        std::vector< sm::Description > ok { sm::UNSORTED_WITH_DUPLICATES };
        if( unique( ma[ i ] ) ) ok.push_back( sm::UNSORTED_NO_DUPLICATES );
        if( sorted( ma[ i ] ) ) ok.push_back( sm::SORTED_WITH_DUPLICATES );
        if( sorted( ma[ i ] ) && unique( ma[ i ] ) ) ok.push_back( sm::SORTED_UNIQUE );
        auto const d = s.pick( ok );
        LOG( s, "sets " << j << " assimilate arrays " << i << " description " << int( d ) );
        std::vector< long > caps; for( std::size_t k = 0; k < ma[ i ].size(); ++k ) caps.push_back( a[ i ].capacityOfArray( k ) );
        auto const p = ma[ i ].empty() ? nullptr : a[ i ].toViewConst().getValues();
        b[ j ].assimilate( std::move( a[ i ] ), d );
        mb[ j ] = asSets< T >( ma[ i ] );
        if( count( mb[ j ] ) != count( ma[ i ] ) ) ++lossy;
        if( !ma[ i ].empty() ) CHECK( b[ j ].toArrayOfArraysView().getValues() == p, "the resources were not taken over" );
        ma[ i ].clear();
        for( std::size_t k = 0; k < caps.size(); ++k ) CHECK_EQ( long( b[ j ].capacityOfSet( k ) ), caps[ k ], "capacity of set ", k );
        CHECK_EQ( long( a[ i ].size() ), 0, "donor" );
        ++there;
      }
      else if( op == 1 )
      {
        LOG( s, "arrays " << i << " assimilate sets " << j );
        std::vector< long > caps; for( std::size_t k = 0; k < mb[ j ].size(); ++k ) caps.push_back( b[ j ].capacityOfSet( k ) );
        auto const p = mb[ j ].empty() ? nullptr : b[ j ].toArrayOfArraysView().getValues();
        a[ i ].assimilate( std::move( b[ j ] ) );
        ma[ i ] = mb[ j ]; mb[ j ].clear();
        if( !ma[ i ].empty() ) CHECK( a[ i ].toViewConst().getValues() == p, "the resources were not taken over" );
        for( std::size_t k = 0; k < caps.size(); ++k ) CHECK_EQ( long( a[ i ].capacityOfArray( k ) ), caps[ k ], "capacity of array ", k );
        CHECK_EQ( long( b[ j ].size() ), 0, "donor" );
        ++back;
      }
      else if( op == 2 ) { LOG( s, "refill arrays " << i ); a[ i ].resize( 0 ); ma[ i ] = rows( 10 ); fillArrays< T >( s, a[ i ], ma[ i ] ); roughen( s, a[ i ], ma[ i ].size() ); }
      else { LOG( s, "refill sets " << j ); b[ j ].resize( 0 ); mb[ j ] = asSets< T >( rows( 10 ) ); fillSets< T >( s, b[ j ], mb[ j ] ); roughen( s, b[ j ], mb[ j ].size() ); }
      for( int k = 0; k < 2; ++k )
      {
        AOA const & ca = a[ k ]; AOS const & cb = b[ k ];
        sameArrays< T >( ca, ma[ k ], "arrays" ); sameSets< T >( cb, mb[ k ], "sets" );
        if( !ma[ k ].empty() ) { sameArrays< T >( ca.toViewConst(), ma[ k ], "view of arrays" ); sameArrays< T >( ca.toViewConstSizes(), ma[ k ], "const sizes view" ); checkLayout( ca.toViewConst(), ma[ k ].size(), ca.valueCapacity() ); }
        if( !mb[ k ].empty() ) { sameSets< T >( cb.toViewConst(), mb[ k ], "view of sets" ); sameArrays< T >( cb.toArrayOfArraysView(), mb[ k ], "arrays view of sets" ); checkLayout( cb.toArrayOfArraysView(), mb[ k ].size(), cb.valueCapacity() ); sameArrays< T >( cb.toView().toArrayOfArraysView(), mb[ k ], "arrays view of the view of sets" ); }
      }
      checkLedger( isTracked< T > ? count( ma[ 0 ] ) + count( ma[ 1 ] ) + count( mb[ 0 ] ) + count( mb[ 1 ] ) : -1, "conversion" );
    }
    if( there > 0 && back > 0 && lossy > 0 ) s.nontrivial();
  }
  checkLedger( 0, "destruction" );
}

/// A matrix takes over a sparsity pattern.
template< typename T, typename COL, typename INDEX >
void matrix( Src & s )
{
  using SP = LvArray::SparsityPattern< COL, INDEX, MallocBuffer >;
  using CRS = LvArray::CRSMatrix< T, COL, INDEX, MallocBuffer >;
  resetLedger();
  {
    SP p; CRS a;
    long cols = 0;
    std::vector< std::map< int, int > > ma;
    std::vector< std::set< int > > mp;
    int next = 1;
    std::size_t n = 0;
    int taken = 0, replaced = 0;
    bool have = false;
    long pcols = 0;
    while( s.more( n, 16, 8 ) )
    {
      Span sp( s ); ++n;
      int const op = s.weighted( { 3, 3, 2, 1, 1 } );
      if( op == 0 )
      {
        // (Re)build the pattern.
        pcols = s.boolean( 0.1 ) ? 0 : s.range( 1, 40 );
        mp.assign( s.length( 8 ), {} );
        bool const caps = s.boolean();
        LOG( s, "pattern " << mp.size() << " x " << pcols << ( caps ? " from capacities" : "" ) );
        for( auto & r : mp ) if( pcols > 0 ) { int const k = s.boolean( 0.2 ) ? 0 : s.length( 12 ); for( int q = 0; q < k; ++q ) r.insert( s.range( 0, int( pcols ) - 1 ) ); }
        if( caps )
        {
          std::vector< INDEX > c; for( auto const & r : mp ) c.push_back( INDEX( r.size() + s.range( 0, 3 ) ) );
          p.template resizeFromRowCapacities< RAJA::loop_exec >( INDEX( mp.size() ), INDEX( pcols ), c.data() );
          auto const v = p.toView();
          for( std::size_t i = 0; i < mp.size(); ++i ) { CHECK_EQ( long( p.nonZeroCapacity( INDEX( i ) ) ), long( c[ i ] ) ); for( int x : mp[ i ] ) CHECK( v.insertNonZero( INDEX( i ), COL( x ) ) ); }
        }
        else
        {
          p.resize( 0, INDEX( pcols ), 0 );
          p.resize( INDEX( mp.size() ), INDEX( pcols ), INDEX( s.range( 0, 5 ) ) );
          for( std::size_t i = 0; i < mp.size(); ++i ) { std::vector< COL > c( mp[ i ].begin(), mp[ i ].end() ); p.insertNonZeros( INDEX( i ), c.begin(), c.end() ); }
        }
        roughen( s, p, mp.size() );
      }
      else if( op == 1 )
      {
        LOG( s, "matrix assimilate pattern" );
        std::vector< long > caps; for( std::size_t k = 0; k < mp.size(); ++k ) caps.push_back( p.nonZeroCapacity( INDEX( k ) ) );
        auto const cp = p.getColumns();
        if( have && !ma.empty() ) ++replaced;
        a.template assimilate< RAJA::loop_exec >( std::move( p ) );
        ma.assign( mp.size(), {} ); for( std::size_t i = 0; i < mp.size(); ++i ) for( int x : mp[ i ] ) ma[ i ][ x ] = dflt< T >();
        if( !mp.empty() ) CHECK( a.getColumns() == cp, "the columns were not taken over" );
        cols = pcols; mp.clear(); have = true;
        for( std::size_t k = 0; k < caps.size(); ++k ) CHECK_EQ( long( a.nonZeroCapacity( INDEX( k ) ) ), caps[ k ], "capacity of row ", k );
        CHECK_EQ( long( p.numRows() ), 0, "donor" );
        // The donor can be reused right away.
        pcols = s.range( 0, 9 ); p.resize( 0, INDEX( pcols ), 0 );
        for( auto const & r : ma ) if( !r.empty() ) { ++taken; break; }
      }
      else if( op == 2 && have && cols > 0 && !ma.empty() )
      {
        LOG( s, "change the matrix" );
        for( int q = s.range( 0, 5 ); q >= 0; --q )
        {
          long const i = s.range< long >( 0, ma.size() - 1 ); int const c = s.range( 0, int( cols ) - 1 ), v = next++;
          if( s.boolean( 0.7 ) ) CHECK_EQ( a.insertNonZero( INDEX( i ), COL( c ), mk< T >( v ) ), ma[ i ].emplace( c, v ).second );
          else CHECK_EQ( a.removeNonZero( INDEX( i ), COL( c ) ), ma[ i ].erase( c ) == 1 );
        }
      }
      else if( op == 3 && have )
      {
        std::vector< INDEX > c( s.length( 9 ) ); for( auto & x : c ) x = s.range( 0, 6 );
        cols = s.range( 1, 30 );
        LOG( s, "matrix resizeFromRowCapacities( " << c.size() << ", " << cols << " )" );
        a.template resizeFromRowCapacities< RAJA::loop_exec >( INDEX( c.size() ), INDEX( cols ), c.data() );
        ma.assign( c.size(), {} );
        for( std::size_t k = 0; k < c.size(); ++k ) CHECK_EQ( long( a.nonZeroCapacity( INDEX( k ) ) ), long( c[ k ] ) );
        auto const v = a.toView();
        for( std::size_t k = 0; k < c.size(); ++k ) for( int q = 0; q < int( c[ k ] ); ++q ) { int const x = s.range( 0, int( cols ) - 1 ), y = next++; CHECK_EQ( v.insertNonZero( INDEX( k ), COL( x ), mk< T >( y ) ), ma[ k ].emplace( x, y ).second ); }
      }
      else if( op == 4 && have ) roughen( s, a, ma.size() );
      long total = 0; for( auto const & r : ma ) total += r.size();
      checkLedger( isTracked< T > ? total : -1, "operation" );
      auto same = [&]( auto const & x, auto const & m, long nc, char const * w )
      {
        CHECK_EQ( long( x.numRows() ), long( m.size() ), w );
        if( m.empty() ) return;
        CHECK_EQ( long( x.numColumns() ), nc, w );
        for( std::size_t i = 0; i < m.size(); ++i )
        {
          CHECK_EQ( long( x.numNonZeros( INDEX( i ) ) ), long( m[ i ].size() ), w, " row ", i );
          long j = 0;
          for( auto const & q : m[ i ] )
          {
            int c; if constexpr( std::is_same< std::decay_t< decltype( q ) >, int >::value ) c = q; else c = q.first;
            CHECK_EQ( long( x.getColumns( INDEX( i ) )[ j++ ] ), long( c ), w, " row ", i );
            CHECK( !x.empty( INDEX( i ), COL( c ) ), w );
          }
        }
      };
      SP const & cpn = p; CRS const & ca = a;
      same( cpn, mp, pcols, "pattern" );
      if( have )
      {
        same( ca, ma, cols, "matrix" );
        if( !ma.empty() )
        {
          same( ca.toSparsityPatternView(), ma, cols, "pattern view of the matrix" ); same( ca.toViewConst(), ma, cols, "view" ); same( ca.toViewConst().toSparsityPatternView(), ma, cols, "pattern view of a view" );
          CHECK( ca.toSparsityPatternView().getColumns() == ca.getColumns() );
          checkLayout( ca.toViewConst(), ma.size(), ca.nonZeroCapacity() );
        }
        for( std::size_t i = 0; i < ma.size(); ++i ) { long j = 0; for( auto const & q : ma[ i ] ) CHECK_EQ( val( ca.getEntries( INDEX( i ) )[ j++ ] ), q.second, "entry (", i, ", ", q.first, ")" ); }
      }
    }
    if( taken > 1 && replaced > 0 ) s.nontrivial();
  }
  checkLedger( 0, "destruction" );
}
static char const * const rule1 = "conversions in both directions, one of them removing duplicates";
static char const * const rule2 = "a pattern with nonzeros is taken over twice, once by a matrix that had rows";
static Registrar r1( "chain.int", chain< int, std::ptrdiff_t >, 6000, rule1, true );
static Registrar r2( "chain.tracked", chain< Tracked, int >, 5000, rule1, true );
static Registrar r3( "chain.string", chain< std::string, std::ptrdiff_t >, 4000, rule1, true );
static Registrar r4( "matrix.double", matrix< double, int, std::ptrdiff_t >, 5000, rule2, true );
static Registrar r9( "matrix.init", matrix< Init, int, std::ptrdiff_t >, 2000, rule2, true );
static Registrar r10( "matrix.placed", matrix< Placed, int, std::ptrdiff_t >, 1500, rule2, true );
static Registrar r5( "matrix.tracked", matrix< Tracked, int, int >, 5000, rule2, true );
static Registrar r6( "matrix.string", matrix< std::string, unsigned int, std::ptrdiff_t >, 4000, rule2, true );
