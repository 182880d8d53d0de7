// C12: copies are deep, moves transfer, nothing is leaked or destroyed twice.
#include "ragged.hpp"
#include "SortedArray.hpp"
#include "StackBuffer.hpp"
using namespace pbt;
using namespace lv;

/// One adapter per container: C the container, M the model, mutate one step, check, live objects.
template< typename T, int N, typename PERM >
struct ArrayAdapter
{
  using C = LvArray::Array< T, N, PERM, std::ptrdiff_t, MallocBuffer >;
  using M = Logical< N >;
  static constexpr bool usableAfterMove = true;
  static void reuse( C & c ) { Ix< N > d; d.fill( 0 ); resizeTo( c, d ); }
  static M empty() { M m; m.dims.fill( 0 ); m.v.clear(); return m; }
  static C make( Src &, M & m ) { m = empty(); return C(); }
  static void mutate( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, N == 1 ? 5 : 2 );
    auto fill = [&]() { m.v.assign( m.size(), 0 ); forAll< N >( m.dims, [&]( Ix< N > const & i ) { int const v = s.range( 0, 999 ); m( i ) = v; at< N >( c, i ) = mk< T >( v ); } ); };
    if( op == 0 ) { long const g = s.large( 20, 0.02 ); m.dims = genDims< N >( s, 6 * g, 60 * g ); resizeTo( c, m.dims ); fill(); }
    else if( op == 1 ) { c.clear(); for( int d = 0; d < N; ++d ) m.dims[ d ] = c.size( d ); m.v.assign( m.size(), 0 ); CHECK_EQ( m.size(), 0l ); }
    else if( op == 2 ) { c.reserve( s.range( 0, 40 ) ); }
    else if constexpr( N == 1 )
    {
      if( op == 3 ) { int const v = s.range( 0, 999 ); c.emplace_back( mk< T >( v ) ); m.v.push_back( v ); ++m.dims[ 0 ]; }
      else if( op == 4 ) { if( m.dims[ 0 ] > 0 ) { c.pop_back(); m.v.pop_back(); --m.dims[ 0 ]; } }
      else { long const p = s.range< long >( 0, m.dims[ 0 ] ); int const v = s.range( 0, 999 ); c.emplace( p, mk< T >( v ) ); m.v.insert( m.v.begin() + p, v ); ++m.dims[ 0 ]; }
    }
  }
  static void check( C const & c, M const & m, char const * w ) { checkArray< N, PERM >( c, m, w ); }
  static long live( M const & m ) { return m.size(); }
  static void checkMoved( C const & c ) { CHECK_EQ( long( c.size() ), 0l, "a moved-from array is not empty" ); }
};

template< typename T >
struct SortedAdapter
{
  using C = LvArray::SortedArray< T, std::ptrdiff_t, MallocBuffer >;
  static void reuse( C & c ) { }
  using M = RefSet< T >;
  static constexpr bool usableAfterMove = true;
  static C make( Src &, M & m ) { m.clear(); return C(); }
  static void mutate( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 3 );
    if( op == 0 ) { auto const b = batchFor( s, m, 2000, 20 * s.large( 50, 0.01 ) ); std::vector< T > v; for( int x : b ) v.push_back( mk< T >( x ) ); c.insert( v.begin(), v.end() ); m.insert( b.begin(), b.end() ); }
    else if( op == 1 ) { int const x = s.range( 0, 199 ); T const t = mk< T >( x ); c.remove( t ); m.erase( x ); }
    else if( op == 2 ) { c.clear(); m.clear(); }
    else { int const x = s.range( 0, 199 ); c.insert( mk< T >( x ) ); m.insert( x ); }
  }
  static void check( C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( c.size() ), long( m.size() ), w );
    long i = 0; for( int x : m ) { CHECK_EQ( val( c[ i ] ), x, w ); ++i; }
  }
  static long live( M const & m ) { return m.size(); }
  static void checkMoved( C const & c ) { CHECK_EQ( long( c.size() ), 0l, "a moved-from sorted array is not empty" ); }
};

template< typename T >
struct AoAAdapter
{
  using C = LvArray::ArrayOfArrays< T, std::ptrdiff_t, MallocBuffer >;
  static void reuse( C & c ) { }
  using M = std::vector< std::vector< int > >;
  static constexpr bool usableAfterMove = false;
  static C make( Src & s, M & m ) { int const n = s.range( 0, 6 ); m.assign( n, {} ); return C( n, s.range( 0, 4 ) ); }
  static void mutate( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 5 );
    if( op == 0 ) { std::vector< int > v( s.length( 8 * s.large( 50, 0.01 ) ) ); std::vector< T > t; for( int & x : v ) { x = s.range( 0, 999 ); t.push_back( mk< T >( x ) ); } c.appendArray( t.begin(), t.end() ); m.push_back( v ); }
    else if( op == 1 ) { int const n = s.range( 0, 10 ); c.resize( n, s.range( 0, 3 ) ); m.resize( n ); }
    else if( op == 2 ) { c.resize( 0 ); m.clear(); }
    else if( m.empty() ) return;
    else
    {
      int const i = s.range< int >( 0, m.size() - 1 );
      if( op == 3 ) { c.eraseArray( i ); m.erase( m.begin() + i ); }
      else if( op == 4 ) { int const k = s.length( 10 * s.large( 50, 0.01 ) ), v = s.range( 0, 999 ); c.resizeArray( i, k, mk< T >( v ) ); m[ i ].resize( k, v ); }
      else { int const k = s.length( 10 * s.large( 50, 0.01 ) ); c.setCapacityOfArray( i, k ); if( int( m[ i ].size() ) > k ) m[ i ].resize( k ); }
    }
  }
  static void check( C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( c.size() ), long( m.size() ), w );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      CHECK_EQ( long( c.sizeOfArray( i ) ), long( m[ i ].size() ), w, " array ", i );
      CHECK( long( c.capacityOfArray( i ) ) >= long( m[ i ].size() ), w );
      for( std::size_t j = 0; j < m[ i ].size(); ++j ) CHECK_EQ( val( c( i, j ) ), m[ i ][ j ], w );
    }
  }
  static long live( M const & m ) { long n = 0; for( auto const & r : m ) n += r.size(); return n; }
  static void checkMoved( C const & c ) { CHECK_EQ( long( c.size() ), 0l, "a moved-from array of arrays is not empty" ); }
};

template< typename T >
struct AoSAdapter
{
  using C = LvArray::ArrayOfSets< T, std::ptrdiff_t, MallocBuffer >;
  static void reuse( C & c ) { }
  using M = std::vector< RefSet< T > >;
  static constexpr bool usableAfterMove = false;
  static C make( Src & s, M & m ) { int const n = s.range( 0, 6 ); m.assign( n, {} ); return C( n, s.range( 0, 4 ) ); }
  static void mutate( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 5 );
    if( op == 0 ) { c.appendSet( s.range( 0, 5 ) ); m.emplace_back(); }
    else if( op == 1 ) { int const n = s.range( 0, 10 ); c.resize( n, s.range( 0, 3 ) ); m.resize( n ); }
    else if( m.empty() ) return;
    else
    {
      int const i = s.range< int >( 0, m.size() - 1 );
      if( op == 2 ) { c.eraseSet( i ); m.erase( m.begin() + i ); }
      else if( op == 3 ) { auto const b = batchFor( s, m[ i ], 50, 12 ); std::vector< T > v; for( int x : b ) v.push_back( mk< T >( x ) ); c.insertIntoSet( i, v.begin(), v.end() ); m[ i ].insert( b.begin(), b.end() ); }
      else if( op == 4 ) { int const x = s.range( 0, 49 ); T const t = mk< T >( x ); c.removeFromSet( i, t ); m[ i ].erase( x ); }
      else { c.clearSet( i ); m[ i ].clear(); }
    }
  }
  static void check( C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( c.size() ), long( m.size() ), w );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      CHECK_EQ( long( c.sizeOfSet( i ) ), long( m[ i ].size() ), w, " set ", i );
      long j = 0; for( int x : m[ i ] ) { CHECK_EQ( val( c( i, j ) ), x, w ); ++j; }
    }
  }
  static long live( M const & m ) { long n = 0; for( auto const & r : m ) n += r.size(); return n; }
  static void checkMoved( C const & c ) { CHECK_EQ( long( c.size() ), 0l, "a moved-from array of sets is not empty" ); }
};

struct SparsityAdapter
{
  using C = LvArray::SparsityPattern< int, std::ptrdiff_t, MallocBuffer >;
  static void reuse( C & c ) { }
  struct M { long cols = 0; std::vector< std::set< int > > rows; };
  static constexpr bool usableAfterMove = false;
  static C make( Src & s, M & m ) { int const n = s.range( 0, 6 ); m.cols = s.range( 0, 30 ); m.rows.assign( n, {} ); return C( n, m.cols, s.range( 0, 4 ) ); }
  static void mutate( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 4 );
    if( op == 0 ) { c.appendRow( s.range( 0, 5 ) ); m.rows.emplace_back(); }
    else if( op == 1 ) { int const n = s.range( 0, 10 ); m.cols += s.range( 0, 10 ); c.resize( n, m.cols, s.range( 0, 3 ) ); m.rows.resize( n ); }
    else if( m.rows.empty() || m.cols == 0 ) return;
    else
    {
      int const i = s.range< int >( 0, m.rows.size() - 1 );
      if( op == 2 || op == 3 ) { auto const b = batchFor( s, m.rows[ i ], m.cols, 12 ); c.insertNonZeros( i, b.begin(), b.end() ); m.rows[ i ].insert( b.begin(), b.end() ); }
      else { auto const b = batchFor( s, m.rows[ i ], m.cols, 12 ); c.removeNonZeros( i, b.begin(), b.end() ); for( int x : b ) m.rows[ i ].erase( x ); }
    }
  }
  static void check( C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( c.numRows() ), long( m.rows.size() ), w );
    CHECK_EQ( long( c.numColumns() ), m.cols, w );
    for( std::size_t i = 0; i < m.rows.size(); ++i )
    {
      CHECK_EQ( long( c.numNonZeros( i ) ), long( m.rows[ i ].size() ), w, " row ", i );
      long j = 0; for( int x : m.rows[ i ] ) { CHECK_EQ( c.getColumns( i )[ j ], x, w ); ++j; }
    }
  }
  static long live( M const & ) { return 0; }
  static void checkMoved( C const & c ) { CHECK_EQ( long( c.numRows() ), 0l, "a moved-from sparsity pattern is not empty" ); }
};

template< typename T >
struct CrsAdapter
{
  using C = LvArray::CRSMatrix< T, int, std::ptrdiff_t, MallocBuffer >;
  static void reuse( C & c ) { }
  struct M { long cols = 0; std::vector< RefRow > rows; };
  static constexpr bool usableAfterMove = false;
  static C make( Src & s, M & m ) { int const n = s.range( 0, 6 ); m.cols = s.range( 0, 30 ); m.rows.assign( n, {} ); return C( n, m.cols, s.range( 0, 4 ) ); }
  static void mutate( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 4 );
    if( op == 0 ) { int const n = s.range( 0, 10 ); m.cols += s.range( 0, 10 ); c.resize( n, m.cols, s.range( 0, 3 ) ); m.rows.resize( n ); }
    else if( op == 1 ) c.compress();
    else if( m.rows.empty() || m.cols == 0 ) return;
    else
    {
      int const i = s.range< int >( 0, m.rows.size() - 1 );
      std::set< int > have; for( auto const & p : m.rows[ i ] ) have.insert( p.first );
      auto const b = batchFor( s, have, m.cols, 12 );
      if( op <= 3 ) { std::vector< T > v; std::vector< int > raw; for( std::size_t k = 0; k < b.size(); ++k ) { raw.push_back( s.range( 0, 999 ) ); v.push_back( mk< T >( raw.back() ) ); } c.insertNonZeros( i, b.data(), v.data(), b.size() ); for( std::size_t k = 0; k < b.size(); ++k ) m.rows[ i ].emplace( b[ k ], raw[ k ] ); }
      else { c.removeNonZeros( i, b.data(), b.size() ); for( int x : b ) m.rows[ i ].erase( x ); }
    }
  }
  static void check( C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( c.numRows() ), long( m.rows.size() ), w );
    CHECK_EQ( long( c.numColumns() ), m.cols, w );
    for( std::size_t i = 0; i < m.rows.size(); ++i )
    {
      CHECK_EQ( long( c.numNonZeros( i ) ), long( m.rows[ i ].size() ), w, " row ", i );
      long j = 0; for( auto const & p : m.rows[ i ] ) { CHECK_EQ( long( c.getColumns( i )[ j ] ), p.first, w ); CHECK_EQ( val( c.getEntries( i )[ j ] ), p.second, w ); ++j; }
    }
  }
  static long live( M const & m ) { long n = 0; for( auto const & r : m.rows ) n += r.size(); return n; }
  static void checkMoved( C const & c ) { CHECK_EQ( long( c.numRows() ), 0l, "a moved-from matrix is not empty" ); }
};

/// Containers of containers.
template< typename T >
struct NestedAdapter
{
  using Inner = LvArray::Array< T, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer >;
  using C = LvArray::Array< Inner, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer >;
  static void reuse( C & c ) { c.resize( 0 ); }
  using M = std::vector< std::vector< int > >;
  static constexpr bool usableAfterMove = true;
  static C make( Src &, M & m ) { m.clear(); return C(); }
  static Inner inner( std::vector< int > const & v ) { Inner r; for( int x : v ) r.emplace_back( mk< T >( x ) ); return r; }
  static std::vector< int > values( Src & s ) { std::vector< int > v( s.length( 6 * s.large( 50, 0.01 ) ) ); for( int & x : v ) x = s.range( 0, 999 ); return v; }
  static void mutate( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 5 );
    if( op == 0 ) { auto const v = values( s ); Inner const t = inner( v ); c.emplace_back( t ); m.push_back( v ); }
    else if( op == 1 ) { auto const v = values( s ); long const p = s.range< long >( 0, m.size() ); c.emplace( p, inner( v ) ); m.insert( m.begin() + p, v ); }
    else if( op == 2 ) { long const k = s.length( 8 * s.large( 50, 0.01 ) ); c.resize( k ); m.resize( k ); }
    else if( op == 3 ) { long const k = s.length( 8 * s.large( 50, 0.01 ) ); auto const v = values( s ); Inner const t = inner( v ); c.resizeDefault( k, t ); m.resize( k, v ); }
    else if( !m.empty() )
    {
      long const i = s.range< long >( 0, m.size() - 1 );
      if( op == 4 ) { c.erase( i ); m.erase( m.begin() + i ); }
      else { long const j = s.range< long >( 0, m.size() - 1 ); if( s.boolean() ) { c[ i ] = c[ j ]; m[ i ] = m[ j ]; } else if( i != j ) { c[ i ] = std::move( c[ j ] ); m[ i ] = m[ j ]; m[ j ].clear(); } }
    }
  }
  static void check( C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( c.size() ), long( m.size() ), w );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      CHECK_EQ( long( c[ i ].size() ), long( m[ i ].size() ), w, " array ", i );
      for( std::size_t j = 0; j < m[ i ].size(); ++j ) CHECK_EQ( val( c[ i ][ j ] ), m[ i ][ j ], w );
    }
  }
  static long live( M const & m ) { long n = 0; for( auto const & r : m ) n += r.size(); return n; }
  static void checkMoved( C const & c ) { CHECK_EQ( long( c.size() ), 0l ); }
};

template< typename A, bool LEDGER >
void lifecycle( Src & s )
{
  using C = typename A::C;
  using M = typename A::M;
  resetLedger();
  {
    constexpr int K = 3;
    struct Slot { std::optional< C > c; M m; bool moved = false; };
    Slot slot[ K ];
    std::size_t n = 0;
    int copies = 0, moves = 0;
    auto nonEmpty = [&]( Slot const & x ) { return x.c && !x.moved && A::live( x.m ) > 0; };
    while( s.more( n, 50, 20 ) )
    {
      Span sp( s ); ++n;
      int const i = s.range( 0, K - 1 ), j = s.range( 0, K - 1 );
      Slot & a = slot[ i ];
      Slot & b = slot[ j ];
      switch( s.weighted( { 8, 3, 2, 3, 2, 3, 1, 1, 1 } ) )
      {
        case 0:
          if( !a.c || ( a.moved && !A::usableAfterMove ) ) { LOG( s, i << " = new" ); a.c.reset(); M m; a.c.emplace( A::make( s, m ) ); a.m = m; a.moved = false; }
          LOG( s, "mutate " << i );
          if( a.moved ) { M m; A::make( s, m ); A::reuse( *a.c ); a.m = m; a.moved = false; }
          A::mutate( s, *a.c, a.m );
          break;
        case 1: // Copy assignment, also onto itself and onto a moved-from container.
          if( a.c && b.c && !b.moved ) { LOG( s, "copy assign " << i << " = " << j ); if( i != j && nonEmpty( a ) ) ++copies; C const & src = *b.c; *a.c = src; a.m = b.m; a.moved = false; }
          break;
        case 2: // Copy construction.
          if( b.c && !b.moved && i != j ) { LOG( s, "copy construct " << i << " from " << j ); a.c.reset(); a.c.emplace( static_cast< C const & >( *b.c ) ); a.m = b.m; a.moved = false; ++copies; }
          break;
        case 3: // Move assignment.
          if( a.c && b.c && !b.moved && i != j ) { LOG( s, "move assign " << i << " = " << j ); if( nonEmpty( a ) ) ++moves; *a.c = std::move( *b.c ); a.m = b.m; a.moved = false; b.moved = true; A::checkMoved( *b.c ); }
          break;
        case 4: // Move construction.
          if( b.c && !b.moved && i != j ) { LOG( s, "move construct " << i << " from " << j ); a.c.reset(); a.c.emplace( std::move( *b.c ) ); a.m = b.m; a.moved = false; b.moved = true; A::checkMoved( *b.c ); ++moves; }
          break;
        case 5: LOG( s, "destroy " << i ); a.c.reset(); break;
        case 6:
          if( a.c && b.c && i != j && !a.moved && !b.moved ) { LOG( s, "swap " << i << ", " << j ); std::swap( *a.c, *b.c ); std::swap( a.m, b.m ); ++moves; }
          break;
        case 7: // Self assignment changes nothing.
          if( a.c && !a.moved ) { LOG( s, "self assign " << i ); C & self = *a.c; if( s.boolean() ) self = *a.c; else self = std::move( *a.c ); }
          break;
        default:
          // Through a vector that grows: copies and moves made by the standard library.
          if( a.c && !a.moved )
          {
            LOG( s, "vector of " << i );
            std::vector< C > v;
            int const k = s.range( 1, 4 );
            for( int q = 0; q < k; ++q ) v.push_back( *a.c );
            for( auto const & x : v ) A::check( x, a.m, "copy in a vector" );
            *a.c = std::move( v.back() );
            v.erase( v.begin() );
            ++copies;
          }
      }
      long want = 0;
      for( int k = 0; k < K; ++k ) if( slot[ k ].c && !slot[ k ].moved ) { A::check( *slot[ k ].c, slot[ k ].m, "operation" ); want += A::live( slot[ k ].m ); }
      checkLedger( LEDGER ? want : -1, "operation" );
    }
    if( copies > 0 && moves > 0 ) s.nontrivial();
  }
  checkLedger( 0, "destruction" );
}
static char const * const rule = "at least one copy and one move of or onto non empty containers";
static Registrar r0( "life.array1.tracked", lifecycle< ArrayAdapter< Tracked, 1, RAJA::PERM_I >, true >, 3000, rule, true );
static Registrar r1( "life.array1.string", lifecycle< ArrayAdapter< std::string, 1, RAJA::PERM_I >, false >, 1500, rule, true );
static Registrar r2( "life.array2.tracked", lifecycle< ArrayAdapter< Tracked, 2, RAJA::PERM_JI >, true >, 2000, rule, true );
static Registrar r3( "life.array3.int", lifecycle< ArrayAdapter< int, 3, RAJA::PERM_KIJ >, false >, 2000, rule, true );
static Registrar r3x( "life.array2.placed", lifecycle< ArrayAdapter< Placed, 2, RAJA::PERM_JI >, false >, 1500, rule, true );
static Registrar r3y( "life.sorted.placed", lifecycle< SortedAdapter< Placed >, false >, 1500, rule, true );
static Registrar r3z( "life.aoa.placed", lifecycle< AoAAdapter< Placed >, false >, 1500, rule, true );
static Registrar r3w( "life.nested.placed", lifecycle< NestedAdapter< Placed >, false >, 1500, rule, true );
static Registrar r4( "life.sorted.tracked", lifecycle< SortedAdapter< Tracked >, true >, 3000, rule, true );
static Registrar r5( "life.sorted.string", lifecycle< SortedAdapter< std::string >, false >, 1500, rule, true );
static Registrar r6( "life.aoa.tracked", lifecycle< AoAAdapter< Tracked >, true >, 3000, rule, true );
static Registrar r7( "life.aoa.string", lifecycle< AoAAdapter< std::string >, false >, 1500, rule, true );
static Registrar r8( "life.aos.tracked", lifecycle< AoSAdapter< Tracked >, true >, 3000, rule, true );
static Registrar r9( "life.aos.int", lifecycle< AoSAdapter< int >, false >, 1500, rule, true );
static Registrar r10( "life.sparsity", lifecycle< SparsityAdapter, false >, 3000, rule, true );
static Registrar r11( "life.crs.tracked", lifecycle< CrsAdapter< Tracked >, true >, 3000, rule, true );
static Registrar r12( "life.crs.string", lifecycle< CrsAdapter< std::string >, false >, 1500, rule, true );
static Registrar r13( "life.crs.double", lifecycle< CrsAdapter< double >, false >, 1500, rule, true );
static Registrar r14( "life.nested.tracked", lifecycle< NestedAdapter< Tracked >, true >, 3000, rule, true );
static Registrar r15( "life.nested.string", lifecycle< NestedAdapter< std::string >, false >, 1500, rule, true );
