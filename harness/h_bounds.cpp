// C17: with bounds checking on, accesses out of range are reported and those in range are not. Built with LVARRAY_BOUNDS_CHECK.
#include "ragged.hpp"
#include "SortedArray.hpp"
#include <csetjmp>
using namespace pbt;
using namespace lv;
using LvArray::StackBuffer;
#if !defined( LVARRAY_BOUNDS_CHECK )
#error "needs LVARRAY_BOUNDS_CHECK"
#endif
#if defined( NDEBUG )
constexpr bool asserts = false;
#else
constexpr bool asserts = true;
#endif

static sigjmp_buf g_jump;
/// True when f ended in the error handler. Many of the calls are noexcept, so the handler does not throw.
template< typename F > [[gnu::noinline]] bool errs( F && f )
{
  static NullBuf nb;
  static std::streambuf * oldC; static std::streambuf * oldE;
  oldC = std::cout.rdbuf( &nb ); oldE = std::cerr.rdbuf( &nb );
  static volatile bool r; r = false;
  LvArray::system::setErrorHandler( []() { siglongjmp( g_jump, 1 ); } );
  if( sigsetjmp( g_jump, 0 ) == 0 ) f(); else r = true;
  pbt::installLibraryErrorHandler(); std::cout.rdbuf( oldC ); std::cerr.rdbuf( oldE );
  return r;
}

/// An index for [0, n): inside, on or beyond either bound.
template< typename INDEX = long > long pickIndex( Src & s, long n, double pBad = 0.4 )
{
  if( n > 0 && !s.boolean( pBad ) ) return s.boolean( 0.3 ) ? n - 1 : s.range< long >( 0, n - 1 );
  static long const mx = std::numeric_limits< INDEX >::max(), mn = std::numeric_limits< INDEX >::lowest();
  long const opts[] = { n, -1, n + 1, -n, n + s.range< long >( 0, 20 ), -s.range< long >( 1, 20 ), 1000000, -1000000, mx, mn, mx - 1, n > 0 ? n - 1 : n };
  return opts[ s.range( 0, 11 ) ];
}
inline bool in( long i, long n ) { return i >= 0 && i < n; }
struct Tally { int bad = 0, good = 0; void operator()( bool b ) { ++( b ? bad : good ); } };
template< typename F > void expect( Src & s, Tally & t, bool bad, char const * what, long i, long j, long n, F && f )
{
  LOG( s, what << "( " << i << ", " << j << ", " << n << " ) should " << ( bad ? "" : "not " ) << "be reported" );
  bool const e = errs( f );
  CHECK_EQ( e, bad, what, "( ", i, ", ", j, ", ", n, " )" );
  t( bad );
}

template< int N, typename PERM, typename INDEX >
void arrays( Src & s )
{
  using A = LvArray::Array< int, N, PERM, INDEX, MallocBuffer >;
  Tally t;
  long const f = s.large( 10, 0.02 );
  Ix< N > const d = genDims< N >( s, 6 * f, 400 * f );
  A a; resizeTo( a, d );
  Logical< N > m { d, std::vector< int >( prod< N >( d ) ) };
  int next = 1;
  forAll< N >( d, [&]( Ix< N > const & i ) { at< N >( a, i ) = m( i ) = next++; } );
  std::size_t n = 0;
  while( s.more( n, 40, 15 ) )
  {
    Span sp( s ); ++n;
    Ix< N > i {};
    bool bad = false;
    int firstBad = N;
    for( int k = 0; k < N; ++k ) { i[ k ] = pickIndex< INDEX >( s, d[ k ], 0.6 / N ); if( !in( i[ k ], d[ k ] ) ) { bad = true; if( firstBad == N ) firstBad = k; } }
    A const & c = a;
    auto const v = a.toView(); auto const vc = a.toViewConst(); auto const sl = a.toSlice(); auto const slc = a.toSliceConst();
    static int got; got = 0;
    auto form = [&]( auto const & x, char const * w )
    {
      auto const what = std::string( w ) + str< N >( i ) + " of " + str< N >( d );
      expect( s, t, bad, ( what + " operator()" ).c_str(), 0, 0, 0, [&]() { got = at< N >( x, i ); } );
      if( !bad ) CHECK_EQ( got, m( i ), what );
      expect( s, t, bad, ( what + " operator[]" ).c_str(), 0, 0, 0, [&]() { got = chain< N >( x, i ); } );
      if( !bad ) CHECK_EQ( got, m( i ), what );
      expect( s, t, bad, ( what + " linearIndex" ).c_str(), 0, 0, 0, [&]() { got = int( linear< N >( x, i ) ); } );
      int const dim = pickIndex< int >( s, N );
      expect( s, t, !in( dim, N ), ( std::string( w ) + " size" ).c_str(), dim, 0, N, [&]() { got = int( x.size( dim ) ); } );
      if( in( dim, N ) ) CHECK_EQ( long( got ), d[ dim ] );
      if constexpr( requires { x.stride( dim ); } ) expect( s, t, !in( dim, N ), ( std::string( w ) + " stride" ).c_str(), dim, 0, N, [&]() { got = int( x.stride( dim ) ); } );
    };
    switch( s.range( 0, 5 ) )
    {
      case 0: form( a, "array" ); break;
      case 1: form( c, "const array" ); break;
      case 2: form( v, "view" ); break;
      case 3: form( vc, "const view" ); break;
      case 4: form( sl, "slice" ); break;
      default: form( slc, "const slice" );
    }
    // The indices after a valid prefix.
    if constexpr( N > 1 ) if( in( i[ 0 ], d[ 0 ] ) )
    {
      Ix< N - 1 > const rest = tail< N, 1 >( i );
      auto const inner = v[ i[ 0 ] ];
      bool const b = firstBad < N;
      expect( s, t, b, "slice of a view", i[ 0 ], i[ 1 ], d[ 1 ], [&]() { got = at< N - 1 >( inner, rest ); } );
      expect( s, t, b, "slice of a view []", i[ 0 ], i[ 1 ], d[ 1 ], [&]() { got = chain< N - 1 >( inner, rest ); } );
    }
    forAll< N >( d, [&]( Ix< N > const & q ) { CHECK_EQ( at< N >( a, q ), m( q ), "after an error" ); } );
  }
  if( t.bad > 2 && t.good > 2 ) s.nontrivial();
}

template< typename T, typename INDEX, template< typename > class BUF, long CAP >
void oneD( Src & s )
{
  Tally t;
  resetLedger();
  {
    LvArray::Array< T, 1, RAJA::PERM_I, INDEX, BUF > a;
    std::vector< int > m;
    int next = 1;
    std::size_t n = 0;
    while( s.more( n, 40, 15 ) )
    {
      Span sp( s ); ++n;
      long const size = m.size();
      switch( s.weighted( { 3, 3, 3, 1, 1, 3 } ) )
      {
        case 0: { if( size >= CAP ) break; long const p = pickIndex< INDEX >( s, size + 1 ); int const x = next++; bool const b = !in( p, size + 1 ); expect( s, t, b, "emplace", p, 0, size, [&]() { a.emplace( INDEX( p ), mk< T >( x ) ); } ); if( !b ) m.insert( m.begin() + p, x ); break; }
        case 1:
        {
          long const k = std::min< long >( s.length( 5 ), CAP - size ), p = pickIndex< INDEX >( s, size + 1 ); std::vector< int > x( k ); for( int & y : x ) y = next++;
          std::vector< T > c; for( int y : x ) c.push_back( mk< T >( y ) );
          bool const b = !in( p, size + 1 ); expect( s, t, b, "insert", p, k, size, [&]() { a.insert( INDEX( p ), c.begin(), c.end() ); } ); if( !b ) m.insert( m.begin() + p, x.begin(), x.end() );
          break;
        }
        case 2: { long const p = pickIndex< INDEX >( s, size ); bool const b = !in( p, size ); expect( s, t, b, "erase", p, 0, size, [&]() { a.erase( INDEX( p ) ); } ); if( !b ) m.erase( m.begin() + p ); break; }
        case 3: if( size > 0 || asserts ) { expect( s, t, size == 0, "pop_back", 0, 0, size, [&]() { a.pop_back(); } ); if( size ) m.pop_back(); } break;
        case 4: if( size < CAP ) { int const x = next++; expect( s, t, false, "emplace_back", 0, 0, size, [&]() { a.emplace_back( mk< T >( x ) ); } ); m.push_back( x ); } break;
        default: { long const p = pickIndex< INDEX >( s, size ); static T const * got; expect( s, t, !in( p, size ), "operator[]", p, 0, size, [&]() { got = &a[ INDEX( p ) ]; } ); if( in( p, size ) ) CHECK_EQ( val( *got ), m[ p ] ); }
      }
      CHECK_EQ( long( a.size() ), long( m.size() ) );
      for( std::size_t k = 0; k < m.size(); ++k ) CHECK_EQ( val( a[ k ] ), m[ k ], "position ", k );
    }
  }
  if( t.bad > 2 && t.good > 2 ) s.nontrivial();
}

template< typename T, typename INDEX >
void sorted( Src & s )
{
  Tally t;
  LvArray::SortedArray< T, INDEX, MallocBuffer > a;
  std::set< int > m;
  std::size_t n = 0;
  while( s.more( n, 30, 12 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size();
    switch( s.weighted( { 3, 4, 1, 2 } ) )
    {
      case 0: { std::set< int > b; for( int k = s.range( 0, 6 ); k > 0; --k ) b.insert( s.range( -20, 20 ) ); std::vector< T > c( b.begin(), b.end() ); expect( s, t, false, "insert", c.size(), 0, 0, [&]() { a.insert( c.begin(), c.end() ); } ); m.insert( b.begin(), b.end() ); break; }
      case 1:
      {
        long const p = pickIndex< INDEX >( s, size ); static T got;
        bool const b = !in( p, size );
        int const how = s.range( 0, 3 );
        expect( s, t, b, "access", p, how, size, [&]() { if( how == 0 ) got = a[ INDEX( p ) ]; else if( how == 1 ) got = a( INDEX( p ) ); else if( how == 2 ) got = a.toView()[ INDEX( p ) ]; else got = a.toViewConst()( INDEX( p ) ); } );
        if( !b ) CHECK_EQ( int( got ), *std::next( m.begin(), p ) );
        break;
      }
      case 2: if( size > 0 ) { int const x = *std::next( m.begin(), s.range< long >( 0, size - 1 ) ); expect( s, t, false, "remove", x, 0, 0, [&]() { a.remove( T( x ) ); } ); m.erase( x ); } break;
      default:
        if( asserts )
        {
          // Values that aren't sorted and unique are reported.
          std::vector< T > c; for( int k = s.range( 2, 8 ); k > 0; --k ) c.push_back( T( s.range( -20, 20 ) ) );
          bool ok = true; for( std::size_t k = 1; k < c.size(); ++k ) ok = ok && c[ k - 1 ] < c[ k ];
          bool const rem = s.boolean();
          expect( s, t, !ok, rem ? "remove unsorted" : "insert unsorted", c.size(), 0, 0, [&]() { if( rem ) a.remove( c.begin(), c.end() ); else a.insert( c.begin(), c.end() ); } );
          if( ok ) for( T x : c ) { if( rem ) m.erase( int( x ) ); else m.insert( int( x ) ); }
        }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
    long k = 0; for( int x : m ) CHECK_EQ( int( a[ INDEX( k++ ) ] ), x );
  }
  if( t.bad > 2 && t.good > 2 ) s.nontrivial();
}

template< typename T, typename INDEX >
void aoa( Src & s )
{
  Tally t;
  resetLedger();
  using A = LvArray::ArrayOfArrays< T, INDEX, MallocBuffer >;
  A a;
  std::vector< std::vector< int > > m;
  int next = 1;
  std::size_t n = 0;
  auto vals = [&]( int mx ) { std::vector< int > x( s.length( mx ) ); for( int & y : x ) y = next++; return x; };
  auto mkv = [&]( std::vector< int > const & x ) { std::vector< T > c; for( int y : x ) c.push_back( mk< T >( y ) ); return c; };
  { int const k = s.range( 0, 5 ); a.resize( INDEX( k ), INDEX( s.range( 0, 4 ) ) ); m.resize( k ); }
  while( s.more( n, 40, 15 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size();
    int const op = s.weighted( { 2, 2, 2, 2, 2, 2, 3, 2, 2, 3, 3, 2, 2, 3, 3 } );
    long const i = op == 1 ? pickIndex< INDEX >( s, size + 1 ) : pickIndex< INDEX >( s, size, 0.25 );
    bool const iok = in( i, size );
    long const len = iok ? long( m[ i ].size() ) : s.range( 0, 4 );
    bool const ins = op == 5 || op == 6 || ( op == 13 );
    long const j = ins ? pickIndex< INDEX >( s, len + 1 ) : pickIndex< INDEX >( s, len );
    INDEX const I = INDEX( i ), J = INDEX( j );
    auto const before = a.toViewConst().getValues();
    switch( op )
    {
      case 0: { auto const x = vals( 5 ); auto const c = mkv( x ); expect( s, t, false, "appendArray", x.size(), 0, size, [&]() { a.appendArray( c.begin(), c.end() ); } ); m.push_back( x ); break; }
      case 1: { auto const x = vals( 5 ); auto const c = mkv( x ); bool const b = !in( i, size + 1 ); expect( s, t, b, "insertArray", i, 0, size, [&]() { a.insertArray( I, c.begin(), c.end() ); } ); if( !b ) m.insert( m.begin() + i, x ); break; }
      case 2: expect( s, t, !iok, "eraseArray", i, 0, size, [&]() { a.eraseArray( I ); } ); if( iok ) m.erase( m.begin() + i ); break;
      case 3: { int const x = next++; expect( s, t, !iok, "emplaceBack", i, 0, size, [&]() { a.emplaceBack( I, mk< T >( x ) ); } ); if( iok ) m[ i ].push_back( x ); break; }
      case 4: { auto const x = vals( 4 ); auto const c = mkv( x ); expect( s, t, !iok, "appendToArray", i, 0, size, [&]() { a.appendToArray( I, c.begin(), c.end() ); } ); if( iok ) m[ i ].insert( m[ i ].end(), x.begin(), x.end() ); break; }
      case 5: { int const x = next++; bool const b = !iok || !in( j, len + 1 ); expect( s, t, b, "emplace", i, j, len, [&]() { a.emplace( I, J, mk< T >( x ) ); } ); if( !b ) m[ i ].insert( m[ i ].begin() + j, x ); break; }
      case 6: { auto const x = vals( 4 ); auto const c = mkv( x ); bool const b = !iok || !in( j, len + 1 ); expect( s, t, b, "insertIntoArray", i, j, len, [&]() { a.insertIntoArray( I, J, c.begin(), c.end() ); } ); if( !b ) m[ i ].insert( m[ i ].begin() + j, x.begin(), x.end() ); break; }
      case 7:
      {
        long const k = s.range< long >( 1, 4 ); bool const view = s.boolean();
        bool const b = !iok || !in( j, len ) || j + k > len;
        expect( s, t, b, "eraseFromArray", i, j, k, [&]() { if( view ) a.toView().eraseFromArray( I, J, INDEX( k ) ); else a.eraseFromArray( I, J, INDEX( k ) ); } );
        if( !b ) m[ i ].erase( m[ i ].begin() + j, m[ i ].begin() + j + k );
        break;
      }
      case 8:
      {
        int const what = s.range( 0, 3 ); long const c = s.length( 6 );
        static char const * const names[] = { "resizeArray", "clearArray", "setCapacityOfArray", "sizeOfArray" };
        static long got;
        expect( s, t, !iok, names[ what ], i, c, size, [&]() { if( what == 0 ) a.resizeArray( I, INDEX( c ), mk< T >( 7 ) ); else if( what == 1 ) a.clearArray( I ); else if( what == 2 ) a.setCapacityOfArray( I, INDEX( c ) ); else got = a.sizeOfArray( I ); } );
        if( iok ) { if( what == 0 ) m[ i ].resize( c, 7 ); else if( what == 1 ) m[ i ].clear(); else if( what == 2 && c < len ) m[ i ].resize( c ); else if( what == 3 ) CHECK_EQ( got, len ); }
        break;
      }
      case 9: case 10:
      {
        int const how = s.range( 0, 7 );
        static T const * got; got = nullptr;
        bool const b = !iok || !in( j, len );
        auto get = [&]( auto const & x ) { if( how & 1 ) got = &x( I, J ); else got = &x[ I ][ J ]; };
        expect( s, t, b, how & 1 ? "operator()" : "operator[][]", i, j, len, [&]() { if( how < 2 ) get( a ); else if( how < 4 ) get( a.toView() ); else if( how < 6 ) get( a.toViewConstSizes() ); else get( a.toViewConst() ); } );
        if( !b ) CHECK_EQ( val( *got ), m[ i ][ j ] );
        break;
      }
      case 11:
      {
        int const how = s.range( 0, 7 );
        static long got;
        auto get = [&]( auto const & x ) { if( how & 1 ) got = x.sizeOfArray( I ); else got = x.capacityOfArray( I ) >= len ? len : -1; };
        expect( s, t, !iok, how & 1 ? "sizeOfArray" : "capacityOfArray", i, 0, size, [&]() { if( how < 2 ) get( a ); else if( how < 4 ) get( a.toView() ); else if( how < 6 ) get( a.toViewConstSizes() ); else get( a.toViewConst() ); } );
        if( iok ) CHECK_EQ( got, len );
        break;
      }
      default:
      {
        // Views report exceeding the capacity of an array.
        auto const v = a.toView();
        long const spare = iok ? long( a.capacityOfArray( I ) ) - len : 0;
        int const what = op == 12 ? s.range( 0, 1 ) : op == 13 ? s.range( 2, 3 ) : 4;
        static char const * const names[] = { "view emplaceBack", "view appendToArray", "view emplace", "view insertIntoArray", "view emplaceBackAtomic" };
        std::vector< int > x = what == 1 || what == 3 ? vals( 6 ) : std::vector< int > { next++ };
        auto const c = mkv( x );
        bool const b = !iok || ( ins && !in( j, len + 1 ) ) || long( x.size() ) > spare;
        if( what == 4 && b && iok ) break; // By then the size is already increased.
        expect( s, t, b, names[ what ], i, ins ? j : spare, x.size(), [&]()
        {
          if( what == 0 ) v.emplaceBack( I, c[ 0 ] ); else if( what == 1 ) v.appendToArray( I, c.begin(), c.end() ); else if( what == 2 ) v.emplace( I, J, c[ 0 ] ); else if( what == 3 ) v.insertIntoArray( I, J, c.begin(), c.end() ); else v.template emplaceBackAtomic< RAJA::seq_atomic >( I, c[ 0 ] );
        } );
        if( !b ) m[ i ].insert( ins ? m[ i ].begin() + j : m[ i ].end(), x.begin(), x.end() );
        CHECK( a.toViewConst().getValues() == before );
      }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
    for( std::size_t k = 0; k < m.size(); ++k ) { CHECK_EQ( long( a.sizeOfArray( INDEX( k ) ) ), long( m[ k ].size() ), "array ", k ); for( std::size_t q = 0; q < m[ k ].size(); ++q ) CHECK_EQ( val( a( INDEX( k ), INDEX( q ) ) ), m[ k ][ q ], "array ", k, " position ", q ); }
  }
  if( t.bad > 2 && t.good > 2 ) s.nontrivial();
}

template< typename T, typename INDEX >
void aos( Src & s )
{
  Tally t;
  LvArray::ArrayOfSets< T, INDEX, MallocBuffer > a;
  std::vector< std::set< int > > m;
  std::size_t n = 0;
  { int const k = s.range( 0, 5 ); a.resize( INDEX( k ), INDEX( s.range( 0, 4 ) ) ); m.resize( k ); }
  while( s.more( n, 40, 15 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size();
    int const op = s.weighted( { 1, 2, 2, 3, 3, 2, 2, 2, 4, 4, 2 } );
    long const i = op == 1 ? pickIndex< INDEX >( s, size + 1 ) : pickIndex< INDEX >( s, size, 0.25 );
    bool const iok = in( i, size );
    long const len = iok ? long( m[ i ].size() ) : s.range( 0, 4 );
    long const j = pickIndex< INDEX >( s, len );
    INDEX const I = INDEX( i ), J = INDEX( j );
    int const x = s.range( 0, 20 );
    std::set< int > bs; for( int k = s.range( 0, 6 ); k > 0; --k ) bs.insert( s.range( 0, 20 ) );
    std::vector< T > const c( bs.begin(), bs.end() );
    switch( op )
    {
      case 0: { int const k = s.range( 0, 4 ); expect( s, t, false, "appendSet", k, 0, 0, [&]() { a.appendSet( INDEX( k ) ); } ); m.emplace_back(); break; }
      case 1: { bool const b = !in( i, size + 1 ); expect( s, t, b, "insertSet", i, 0, size, [&]() { a.insertSet( I, 2 ); } ); if( !b ) m.emplace( m.begin() + i ); break; }
      case 2: expect( s, t, !iok, "eraseSet", i, 0, size, [&]() { a.eraseSet( I ); } ); if( iok ) m.erase( m.begin() + i ); break;
      case 3: expect( s, t, !iok, "insertIntoSet", i, x, size, [&]() { a.insertIntoSet( I, T( x ) ); } ); if( iok ) m[ i ].insert( x ); break;
      case 4: expect( s, t, !iok, "insertIntoSet range", i, 0, size, [&]() { a.insertIntoSet( I, c.begin(), c.end() ); } ); if( iok ) m[ i ].insert( bs.begin(), bs.end() ); break;
      case 5: expect( s, t, !iok, "removeFromSet", i, x, size, [&]() { a.removeFromSet( I, T( x ) ); } ); if( iok ) m[ i ].erase( x ); break;
      case 6: expect( s, t, !iok, "removeFromSet range", i, 0, size, [&]() { a.removeFromSet( I, c.begin(), c.end() ); } ); if( iok ) for( int y : bs ) m[ i ].erase( y ); break;
      case 7:
      {
        int const what = s.range( 0, 2 ); long const k = s.length( 6 );
        static char const * const names[] = { "clearSet", "setCapacityOfSet", "reserveCapacityOfSet" };
        expect( s, t, !iok, names[ what ], i, k, size, [&]() { if( what == 0 ) a.clearSet( I ); else if( what == 1 ) a.setCapacityOfSet( I, INDEX( k ) ); else a.reserveCapacityOfSet( I, INDEX( k ) ); } );
        if( iok ) { if( what == 0 ) m[ i ].clear(); else if( what == 1 ) while( long( m[ i ].size() ) > k ) m[ i ].erase( std::prev( m[ i ].end() ) ); }
        break;
      }
      case 8:
      {
        int const how = s.range( 0, 5 );
        static T got;
        bool const b = !iok || !in( j, len );
        auto get = [&]( auto const & y ) { if( how & 1 ) got = y( I, J ); else got = y[ I ][ J ]; };
        expect( s, t, b, how & 1 ? "operator()" : "operator[][]", i, j, len, [&]() { if( how < 2 ) get( a ); else if( how < 4 ) get( a.toView() ); else get( a.toViewConst() ); } );
        if( !b ) CHECK_EQ( int( got ), *std::next( m[ i ].begin(), j ) );
        static long q;
        auto get2 = [&]( auto const & y ) { if( how & 1 ) q = y.sizeOfSet( I ); else q = y.contains( I, T( x ) ); };
        expect( s, t, !iok, how & 1 ? "sizeOfSet" : "contains", i, x, size, [&]() { if( how < 2 ) get2( a ); else if( how < 4 ) get2( a.toView() ); else get2( a.toViewConst() ); } );
        if( iok ) CHECK_EQ( q, how & 1 ? len : long( m[ i ].count( x ) ) );
        expect( s, t, !iok, "capacityOfSet", i, 0, size, [&]() { q = a.capacityOfSet( I ); } );
        break;
      }
      case 9:
      {
        auto const v = a.toView();
        long const spare = iok ? long( a.capacityOfSet( I ) ) - len : 0;
        int const what = s.range( 0, 3 );
        long need = 0;
        if( iok ) { if( what == 0 ) need = !m[ i ].count( x ); else if( what == 1 ) for( int y : bs ) need += !m[ i ].count( y ); }
        bool const b = !iok || need > spare;
        static char const * const names[] = { "view insertIntoSet", "view insertIntoSet range", "view removeFromSet", "view removeFromSet range" };
        expect( s, t, b, names[ what ], i, need, spare, [&]() { if( what == 0 ) v.insertIntoSet( I, T( x ) ); else if( what == 1 ) v.insertIntoSet( I, c.begin(), c.end() ); else if( what == 2 ) v.removeFromSet( I, T( x ) ); else v.removeFromSet( I, c.begin(), c.end() ); } );
        if( !b ) { if( what == 0 ) m[ i ].insert( x ); else if( what == 1 ) m[ i ].insert( bs.begin(), bs.end() ); else if( what == 2 ) m[ i ].erase( x ); else for( int y : bs ) m[ i ].erase( y ); }
        break;
      }
      default:
        if( asserts && iok )
        {
          std::vector< T > u; for( int k = s.range( 2, 6 ); k > 0; --k ) u.push_back( T( s.range( 0, 20 ) ) );
          bool ok = true; for( std::size_t k = 1; k < u.size(); ++k ) ok = ok && u[ k - 1 ] < u[ k ];
          if( ok ) break;
          bool const rem = s.boolean();
          expect( s, t, true, rem ? "remove unsorted" : "insert unsorted", i, 0, 0, [&]() { if( rem ) a.removeFromSet( I, u.begin(), u.end() ); else a.insertIntoSet( I, u.begin(), u.end() ); } );
        }
    }
    CHECK_EQ( long( a.size() ), long( m.size() ) );
    for( std::size_t k = 0; k < m.size(); ++k ) { CHECK_EQ( long( a.sizeOfSet( INDEX( k ) ) ), long( m[ k ].size() ), "set ", k ); long q = 0; for( int y : m[ k ] ) CHECK_EQ( int( a( INDEX( k ), INDEX( q++ ) ) ), y, "set ", k ); }
  }
  if( t.bad > 2 && t.good > 2 ) s.nontrivial();
}

template< typename COL, typename INDEX, bool MATRIX >
void sparse( Src & s )
{
  Tally t;
  using SP = LvArray::SparsityPattern< COL, INDEX, MallocBuffer >;
  using CRS = LvArray::CRSMatrix< int, COL, INDEX, MallocBuffer >;
  std::conditional_t< MATRIX, CRS, SP > a;
  std::vector< RefRow > m( s.range( 0, 5 ) );
  long const cols = s.boolean( 0.1 ) ? 0 : s.range( 1, 20 );
  a.resize( INDEX( m.size() ), INDEX( cols ), INDEX( s.range( 0, 4 ) ) );
  std::size_t n = 0;
  int next = 1;
  while( s.more( n, 40, 15 ) )
  {
    Span sp( s ); ++n;
    long const size = m.size();
    int const op = s.weighted( { 4, 4, 3, 3, 2, 3, 3, 2 } );
    long const i = pickIndex< INDEX >( s, size, 0.25 );
    bool const iok = in( i, size );
    long const len = iok ? long( m[ i ].size() ) : s.range( 0, 4 );
    INDEX const I = INDEX( i );
    long const x = pickIndex< COL >( s, cols, 0.25 );
    bool const xok = in( x, cols );
    COL const X = COL( x );
    // Sorted and unique, possibly out of range at either end.
    std::set< long > bs; for( int k = s.range( 0, 6 ); k > 0; --k ) bs.insert( pickIndex< COL >( s, cols, 0.08 ) );
    bool bok = true; for( long y : bs ) bok = bok && in( y, cols );
    std::vector< COL > const c( bs.begin(), bs.end() );
    std::vector< int > e( c.size() ); for( int & y : e ) y = next++;
    int const e1 = next++;
    bool const view = op <= 3 && s.boolean();
    long const spare = iok ? long( a.nonZeroCapacity( I ) ) - len : 0;
    auto one = [&]( auto const & y ) { if constexpr( MATRIX ) y.insertNonZero( I, X, e1 ); else y.insertNonZero( I, X ); };
    auto many = [&]( auto & y ) { if constexpr( MATRIX ) y.insertNonZeros( I, c.data(), e.data(), INDEX( c.size() ) ); else y.insertNonZeros( I, c.begin(), c.end() ); };
    auto rmany = [&]( auto & y ) { if constexpr( MATRIX ) y.removeNonZeros( I, c.data(), INDEX( c.size() ) ); else y.removeNonZeros( I, c.begin(), c.end() ); };
    auto const v = a.toView();
    switch( op )
    {
      case 0: { bool const b = !iok || !xok || ( view && !m[ i ].count( x ) && spare < 1 ); expect( s, t, b, view ? "view insertNonZero" : "insertNonZero", i, x, cols, [&]() { if( view ) one( v ); else if constexpr( MATRIX ) a.insertNonZero( I, X, e1 ); else a.insertNonZero( I, X ); } ); if( !b ) m[ i ].emplace( x, e1 ); break; }
      case 1:
      {
        long need = 0; if( iok ) for( long y : bs ) need += !m[ i ].count( y );
        bool const b = !iok || !bok || ( view && need > spare );
        expect( s, t, b, view ? "view insertNonZeros" : "insertNonZeros", i, c.size(), cols, [&]() { if( view ) many( v ); else many( a ); } );
        if( !b ) for( std::size_t k = 0; k < c.size(); ++k ) m[ i ].emplace( long( c[ k ] ), e[ k ] );
        break;
      }
      case 2: { bool const b = !iok || !xok; expect( s, t, b, view ? "view removeNonZero" : "removeNonZero", i, x, cols, [&]() { if( view ) v.removeNonZero( I, X ); else a.removeNonZero( I, X ); } ); if( !b ) m[ i ].erase( x ); break; }
      case 3: { bool const b = !iok || !bok; expect( s, t, b, view ? "view removeNonZeros" : "removeNonZeros", i, c.size(), cols, [&]() { if( view ) rmany( v ); else rmany( a ); } ); if( !b ) for( long y : bs ) m[ i ].erase( y ); break; }
      case 4:
      {
        int const what = s.range( 0, 1 ); long const k = s.length( 8 );
        expect( s, t, !iok, what ? "setRowCapacity" : "reserveNonZeros", i, k, size, [&]() { if( what ) a.setRowCapacity( I, INDEX( k ) ); else a.reserveNonZeros( I, INDEX( k ) ); } );
        if( iok && what ) while( long( m[ i ].size() ) > k ) m[ i ].erase( std::prev( m[ i ].end() ) );
        break;
      }
      case 5: case 6:
      {
        long const j = pickIndex< INDEX >( s, len ); bool const b = !iok || !in( j, len );
        int const how = s.range( 0, 2 );
        static long got;
        auto get = [&]( auto const & y ) { got = y.getColumns( I )[ j ]; };
        expect( s, t, b, "getColumns", i, j, len, [&]() { if( how == 0 ) get( a ); else if( how == 1 ) get( v ); else get( a.toViewConst() ); } );
        if( !b ) CHECK_EQ( got, std::next( m[ i ].begin(), j )->first );
        if constexpr( MATRIX )
        {
          auto get2 = [&]( auto const & y ) { got = y.getEntries( I )[ j ]; };
          expect( s, t, b, "getEntries", i, j, len, [&]() { if( how == 0 ) get2( a ); else if( how == 1 ) get2( v ); else get2( a.toViewConst() ); } );
          if( !b ) CHECK_EQ( got, long( std::next( m[ i ].begin(), j )->second ) );
        }
        auto get3 = [&]( auto const & y ) { got = s.size() >= 0 ? long( y.numNonZeros( I ) ) : 0; };
        expect( s, t, !iok, "numNonZeros", i, 0, size, [&]() { if( how == 0 ) get3( a ); else if( how == 1 ) get3( v ); else get3( a.toViewConst() ); } );
        if( iok ) CHECK_EQ( got, len );
        expect( s, t, !iok, "nonZeroCapacity", i, 0, size, [&]() { if( how == 0 ) got = a.nonZeroCapacity( I ); else got = v.nonZeroCapacity( I ); } );
        expect( s, t, !iok, "empty", i, 0, size, [&]() { if( how == 0 ) got = a.empty( I ); else got = v.empty( I, COL( 0 ) ); } );
        break;
      }
      default:
        if constexpr( MATRIX )
        {
          int const how = s.range( 0, 3 );
          std::vector< COL > ac; std::vector< int > av;
          if( iok ) for( auto const & p : m[ i ] ) if( s.boolean() ) { ac.push_back( COL( p.first ) ); av.push_back( s.range( 1, 9 ) ); }
          // A column that is not in the row is reported by the assertions.
          bool const missing = asserts && iok && len > 0 && s.boolean( 0.3 ) && !m[ i ].count( 0 );
          if( missing ) { ac.insert( ac.begin(), COL( 0 ) ); av.insert( av.begin(), 5 ); }
          if( !asserts && !iok ) ac.clear();
          expect( s, t, !iok || missing, "addToRow", i, how, ac.size(), [&]()
          {
            INDEX const nc = INDEX( ac.size() );
            if( how == 0 ) a.template addToRow< RAJA::seq_atomic >( I, ac.data(), av.data(), nc ); else if( how == 1 ) v.template addToRowBinarySearch< RAJA::seq_atomic >( I, ac.data(), av.data(), nc );
            else if( how == 2 ) a.template addToRowLinearSearch< RAJA::seq_atomic >( I, ac.data(), av.data(), nc ); else v.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( I, ac.data(), av.data(), nc );
          } );
          if( iok && !missing ) for( std::size_t k = 0; k < ac.size(); ++k ) m[ i ][ long( ac[ k ] ) ] += av[ k ];
        }
    }
    CHECK_EQ( long( a.numRows() ), long( m.size() ) );
    for( std::size_t k = 0; k < m.size(); ++k )
    {
      CHECK_EQ( long( a.numNonZeros( INDEX( k ) ) ), long( m[ k ].size() ), "row ", k );
      long q = 0;
      for( auto const & p : m[ k ] ) { CHECK_EQ( long( a.getColumns( INDEX( k ) )[ q ] ), p.first, "row ", k ); if constexpr( MATRIX ) CHECK_EQ( a.getEntries( INDEX( k ) )[ q ], p.second, "row ", k ); ++q; }
    }
  }
  if( t.bad > 2 && t.good > 2 ) s.nontrivial();
}
static char const * const rule = "at least three accesses out of range and three in range";
static Registrar r1( "bounds.array1", arrays< 1, RAJA::PERM_I, std::ptrdiff_t >, 2000, rule );
static Registrar r2( "bounds.array2", arrays< 2, RAJA::PERM_JI, int >, 2000, rule );
static Registrar r3( "bounds.array3", arrays< 3, RAJA::PERM_IKJ, std::ptrdiff_t >, 2000, rule );
static Registrar r4( "bounds.array4", arrays< 4, RAJA::PERM_LKJI, int >, 1000, rule );
static Registrar r5( "bounds.vector", oneD< int, std::ptrdiff_t, MallocBuffer, 1000000 >, 2000, rule );
static Registrar r6( "bounds.vector.string", oneD< std::string, int, MallocBuffer, 1000000 >, 2000, rule );
template< typename T > using Stack8 = StackBuffer< T, 24 >;
static Registrar r7( "bounds.sorted.double", sorted< double, int >, 2000, rule );
static Registrar r8( "bounds.sorted.long", sorted< long, std::ptrdiff_t >, 2000, rule );
static Registrar r9( "bounds.aoa.int", aoa< int, std::ptrdiff_t >, 2500, rule );
static Registrar r10( "bounds.aoa.string", aoa< std::string, int >, 2000, rule );
static Registrar r11( "bounds.aos", aos< int, std::ptrdiff_t >, 2500, rule );
static Registrar r12( "bounds.sparsity", sparse< int, std::ptrdiff_t, false >, 2500, rule );
static Registrar r13( "bounds.crs", sparse< int, std::ptrdiff_t, true >, 2500, rule );
static Registrar r14( "bounds.sparsity.uint", sparse< unsigned int, int, false >, 1500, rule );
static Registrar r15( "bounds.crs.short", sparse< short, int, true >, 1500, rule );
