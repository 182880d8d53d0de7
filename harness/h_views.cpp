// C15: views and slices alias their array; helpers visit every element once in order.
#include "arr.hpp"
using namespace pbt;
using namespace lv;
using LvArray::MallocBuffer;

template< typename T, int N, typename PERM, typename INDEX >
struct Maker
{
  using A = LvArray::Array< T, N, PERM, INDEX, MallocBuffer >;
  A a;
  Logical< N > m;
  int next = 1;
  void fill() { forAll< N >( m.dims, [&]( Ix< N > const & i ) { int const v = next++ % 100000; m( i ) = v; at< N >( a, i ) = mk< T >( v ); } ); }
  Maker( Src & s, long maxLen, long maxTotal )
  {
    long const f = s.large( 20, 0.02 );
    m.dims = genDims< N >( s, maxLen * f, maxTotal * f );
    m.v.assign( m.size(), 0 );
    resizeTo( a, m.dims );
    if( s.boolean( 0.3 ) ) a.reserve( INDEX( m.size() + s.range( 0, 20 ) ) );
    fill();
  }
};

/// All views, const views, slices of an array report its shape and alias its elements.
template< typename T, int N, typename PERM, typename INDEX >
void aliasing( Src & s )
{
  Maker< T, N, PERM, INDEX > k( s, 6, 150 );
  auto & a = k.a;
  auto & m = k.m;
  int const r = s.range( 0, N - 1 );
  a.setSingleParameterResizeIndex( r );
  LOG( s, "N=" << N << " dims=" << str< N >( m.dims ) );
  using A = std::remove_reference_t< decltype( a ) >;
  using View = LvArray::ArrayView< T, N, A::USD, INDEX, MallocBuffer >;
  using ViewC = LvArray::ArrayView< T const, N, A::USD, INDEX, MallocBuffer >;
  View v = a.toView();
  View v2( v );
  View v3;
  v3 = v;
  View v4( std::move( v3 ) );
  View v5;
  v5 = View( v );
  View const & asBase = a;
  View vb( asBase );
  ViewC vc = a.toViewConst();
  ViewC vc2 = v.toViewConst();
  ViewC vc3 = v;
  ViewC vc4 = a;
  auto const & nv = a.toNestedView();
  auto const & nvc = a.toNestedViewConst();
  auto const checkAll = [&]( char const * w )
  {
    auto one = [&]( auto const & x, char const * what )
    {
      checkArray< N, PERM >( x, m, what );
      CHECK( x.data() == a.data(), what, " does not alias the array after ", w );
      CHECK_EQ( x.getSingleParameterResizeIndex(), r, what );
      CHECK_EQ( long( x.capacity() ), long( a.capacity() ), what );
      long c = 0;
      for( auto const & e : x ) { CHECK( &e == a.data() + c, what ); ++c; }
      CHECK_EQ( c, m.size(), what );
    };
    one( a, "array" ); one( v, "view" ); one( v2, "copied view" ); one( v4, "moved view" ); one( v5, "move assigned view" ); one( vb, "view of the base class" );
    one( vc, "const view" ); one( vc2, "const view of the view" ); one( vc3, "converted const view" ); one( vc4, "const view converted from the array" );
    one( nv, "nested view" ); one( nvc, "nested const view" );
  };
  checkAll( "creation" );
  std::size_t n = 0;
  int changes = 0;
  while( s.more( n, 12, 5 ) )
  {
    Span sp( s ); ++n;
    switch( s.range( 0, 6 ) )
    {
      case 0:
      {
        int const x = s.range( -5, 5000 );
        LOG( s, "setValues " << x );
        T const t = mk< T >( x );
        ( s.boolean() ? v : v2 ).template setValues< RAJA::seq_exec >( t );
        for( int & q : m.v ) q = x;
        if( m.size() ) ++changes;
        break;
      }
      case 1: LOG( s, "zero" ); v4.zero(); for( int & q : m.v ) q = 0; if( m.size() ) ++changes; break;
      case 2:
      {
        LOG( s, "setValues of a view" );
        LvArray::Array< T, N, PERM, INDEX, MallocBuffer > b( a );
        int c = k.next;
        forAll< N >( m.dims, [&]( Ix< N > const & i ) { ++c; m( i ) = c % 1000; at< N >( b, i ) = mk< T >( c % 1000 ); } );
        k.next = c;
        a.template setValues< RAJA::seq_exec >( b.toViewConst() );
        checkArray< N, PERM >( b, m, "source of setValues" );
        if( m.size() ) ++changes;
        break;
      }
      case 3:
      {
        // A source of another shape is refused and nothing changes.
        LvArray::Array< T, N, PERM, INDEX, MallocBuffer > b;
        Ix< N > d = m.dims;
        d[ s.range( 0, N - 1 ) ] += 1;
        resizeTo( b, d );
        LOG( s, "setValues of a view shaped " << str< N >( d ) );
        CHECK( reportsError( [&]() { v.template setValues< RAJA::seq_exec >( b.toViewConst() ); } ), "a source shaped ", str< N >( d ), " was accepted for ", str< N >( m.dims ) );
        break;
      }
      case 4:
        if( m.size() )
        {
          Ix< N > i {};
          for( int q = 0; q < N; ++q ) i[ q ] = s.range< long >( 0, m.dims[ q ] - 1 );
          int const x = s.range( 0, 5000 );
          int const how = s.range( 0, 5 );
          LOG( s, "write " << x << " at " << str< N >( i ) << " through " << how );
          T const t = mk< T >( x );
          if( how == 0 ) at< N >( v, i ) = t;
          else if( how == 1 ) chain< N >( v5, i ) = t;
          else if( how == 2 ) at< N >( a.toSlice(), i ) = t;
          else if( how == 3 ) chain< N >( v2.toSlice(), i ) = t;
          else if( how == 4 ) a.data()[ linear< N >( vc, i ) ] = t;
          else { LvArray::ArraySlice< T, N, A::USD, INDEX > const sl = v; sl.begin()[ linear< N >( v, i ) ] = t; }
          m( i ) = x; ++changes;
        }
        break;
      case 5:
        if( m.size() )
        {
          // Fill one sub slice and nothing else.
          if constexpr( N > 1 )
          {
            long const i0 = s.range< long >( 0, m.dims[ 0 ] - 1 );
            int const x = s.range( 0, 5000 );
            LOG( s, "fill slice " << i0 << " with " << x );
            LvArray::forValuesInSlice( v[ i0 ], [&]( T & e ) { e = mk< T >( x ); } );
            forAll< N >( m.dims, [&]( Ix< N > const & i ) { if( i[ 0 ] == i0 ) m( i ) = x; } );
            ++changes;
          }
        }
        break;
      default:
        // A copy of the array is independent.
        { auto b = a; forAll< N >( m.dims, [&]( Ix< N > const & i ) { at< N >( b, i ) = mk< T >( 7 ); } ); }
    }
    checkAll( "operation" );
  }
  if( changes > 1 && m.size() > 1 ) s.nontrivial();
}

/// Slice helpers, contiguity.
template< int N, typename PERM, typename INDEX >
void slices( Src & s )
{
  Maker< int, N, PERM, INDEX > k( s, 5, 120 );
  auto & a = k.a;
  auto & m = k.m;
  LOG( s, "N=" << N << " dims=" << str< N >( m.dims ) );
  auto const v = a.toViewConst();
  auto const check = [&]( auto d, auto const & sub, Ix< N > const & prefix )
  {
    constexpr int D = decltype( d )::value;
    constexpr int M = N - D;
    using S = std::remove_const_t< std::remove_reference_t< decltype( sub ) > >;
    Ix< M > const dims = tail< N, D >( m.dims );
    auto full = [&]( Ix< M > const & i ) { Ix< N > j = prefix; for( int q = 0; q < M; ++q ) j[ q + D ] = i[ q ]; return j; };
    // Order and values.
    std::vector< int > want, got;
    forAll< M >( dims, [&]( Ix< M > const & i ) { want.push_back( m( full( i ) ) ); } );
    LvArray::forValuesInSlice( sub, [&]( int const & x ) { got.push_back( x ); } );
    CHECK( want == got, "forValuesInSlice after ", D, " indices" );
    std::size_t at_ = 0;
    LvArray::forValuesInSliceWithIndices( sub, [&]( int const & x, auto const ... idx )
    {
      Ix< M > const i { long( idx ) ... };
      CHECK( at_ < want.size() && x == want[ at_ ], "forValuesInSliceWithIndices value ", at_ );
      CHECK_EQ( rowMajor< M >( dims, i ), long( at_ ), "forValuesInSliceWithIndices order" );
      ++at_;
    } );
    CHECK_EQ( at_, want.size() );
    // Sum over the first dimension.
    if constexpr( M == 1 )
    {
      int sum = 5, w = 5;
      LvArray::sumOverFirstDimension( sub, sum );
      for( int x : want ) w += x;
      CHECK_EQ( sum, w );
    }
    else
    {
      Ix< M - 1 > const rd = tail< M, 1 >( dims );
      auto doSum = [&]( auto perm )
      {
        LvArray::Array< int, M - 1, decltype( perm ), INDEX, MallocBuffer > dst;
        resizeTo( dst, rd );
        Logical< M - 1 > w; w.dims = rd; w.v.assign( w.size(), 0 );
        int c = 0;
        forAll< M - 1 >( rd, [&]( Ix< M - 1 > const & i ) { at< M - 1 >( dst, i ) = c; w( i ) = c; ++c; } );
        forAll< M >( dims, [&]( Ix< M > const & i ) { w( tail< M, 1 >( i ) ) += m( full( i ) ); } );
        LvArray::sumOverFirstDimension( sub, dst.toSlice() );
        forAll< M - 1 >( rd, [&]( Ix< M - 1 > const & i ) { CHECK_EQ( at< M - 1 >( dst, i ), w( i ), "sumOverFirstDimension at ", str< M - 1 >( i ) ); } );
        // A destination of another shape is refused.
        Ix< M - 1 > bad = rd; bad[ M - 2 ] += 1;
        resizeTo( dst, bad );
        CHECK( reportsError( [&]() { LvArray::sumOverFirstDimension( sub, dst.toSlice() ); } ), "sumOverFirstDimension accepted another shape" );
      };
      if constexpr( M == 2 ) doSum( RAJA::PERM_I {} );
      else if constexpr( M == 3 ) { if( s.boolean() ) doSum( RAJA::PERM_IJ {} ); else doSum( RAJA::PERM_JI {} ); }
      else { if( s.boolean() ) doSum( RAJA::PERM_KIJ {} ); else doSum( RAJA::PERM_KJI {} ); }
    }
    // Contiguity against the addresses.
    std::vector< int const * > addr;
    forAll< M >( dims, [&]( Ix< M > const & i ) { addr.push_back( &at< N >( v, full( i ) ) ); } );
    std::sort( addr.begin(), addr.end() );
    bool gapless = true;
    for( std::size_t i = 1; i < addr.size(); ++i ) gapless = gapless && addr[ i ] == addr[ i - 1 ] + 1;
    bool const c = sub.isContiguous();
    if( c ) CHECK( gapless, "isContiguous is true for a slice with gaps, dims ", str< M >( dims ), " of ", str< N >( m.dims ) );
    bool ones = false;
    for( long x : m.dims ) ones = ones || x == 1;
    if constexpr( S::USD >= 0 )
    {
      if( gapless && !ones ) CHECK( c, "isContiguous is false for a gapless slice, dims ", str< M >( dims ), " of ", str< N >( m.dims ) );
      if( c )
      {
        if( !addr.empty() ) CHECK( sub.begin() == addr[ 0 ] && sub.dataIfContiguous() == addr[ 0 ], "data of the contiguous slice" );
        std::size_t q = 0;
        for( int const & x : sub ) { CHECK( q < addr.size() && &x == addr[ q ], "iteration of a contiguous slice at ", q ); ++q; }
        CHECK_EQ( q, addr.size(), "iteration of a contiguous slice" );
        s.label( "contiguous" );
      }
      else
      {
        s.label( "gaps with a unit stride" );
        CHECK( reportsError( [&]() { ( void ) sub.dataIfContiguous(); } ), "dataIfContiguous of a slice with gaps" );
        CHECK( reportsError( [&]() { ( void ) sub.begin(); } ), "begin of a slice with gaps" );
      }
    }
    else { CHECK( !c, "a slice without unit stride is called contiguous" ); s.label( "no unit stride" ); }
  };
  Ix< N > i {};
  bool ok = true;
  for( int q = 0; q < N; ++q ) { ok = ok && m.dims[ q ] > 0; i[ q ] = m.dims[ q ] > 0 ? s.range< long >( 0, m.dims[ q ] - 1 ) : 0; }
  if( ok ) forPrefixes< N >( a.toSliceConst(), i, [&]( auto d, auto const & sub ) { check( d, sub, i ); } );
  else { check( std::integral_constant< int, 0 >(), a.toSliceConst(), i ); s.label( "empty" ); }
  if( m.size() > 3 && N > 1 ) s.nontrivial();
}

/// Reinterpretation as another element size.
struct Pair { int a, b; };
struct Triple { int a, b, c; };
template< int N, typename PERM, typename INDEX >
void retype( Src & s )
{
  int const ratio = s.boolean() ? 2 : 3;
  Ix< N > d = genDims< N >( s, 4, 40 );
  int const usd = LvArray::typeManipulation::getStrideOneDimension( PERM {} );
  bool const divisible = !s.boolean( 0.15 );
  d[ usd ] *= ratio;
  if( !divisible ) d[ usd ] += s.range( 1, ratio - 1 );
  LOG( s, "dims=" << str< N >( d ) << " ratio " << ratio );
  LvArray::Array< int, N, PERM, INDEX, MallocBuffer > a;
  resizeTo( a, d );
  int const r = s.range( 0, N - 1 );
  a.setSingleParameterResizeIndex( r );
  for( long i = 0; i < long( a.size() ); ++i ) a.data()[ i ] = int( i ) + 1;
  auto run = [&]( auto tag )
  {
    using G = decltype( tag );
    using View = LvArray::ArrayView< G, N, LvArray::typeManipulation::getStrideOneDimension( PERM {} ), INDEX, MallocBuffer >;
    if( !divisible ) { CHECK( reportsError( [&]() { View v( a.toView() ); } ) || prod< N >( d ) == 0, "an indivisible length was accepted" ); return; }
    View v( a.toView() );
    CHECK( static_cast< void * >( v.data() ) == static_cast< void * >( a.data() ), "the reinterpreted view does not alias" );
    Ix< N > e = d; e[ usd ] /= ratio;
    long const stride = ratio;
    CHECK_EQ( v.getSingleParameterResizeIndex(), r );
    for( int k = 0; k < N; ++k )
    {
      CHECK_EQ( long( v.size( k ) ), e[ k ], "dimension ", k );
      CHECK_EQ( long( v.strides()[ k ] ), k == usd ? 1L : long( a.strides()[ k ] ) / stride, "stride ", k );
    }
    CHECK_EQ( long( v.size() ), prod< N >( e ) );
    CHECK_EQ( long( v.capacity() ), long( a.capacity() ) / ratio );
    forAll< N >( e, [&]( Ix< N > const & i )
    {
      Ix< N > j = i; j[ usd ] *= ratio;
      int const first = at< N >( a, j );
      G const & g = at< N >( v, i );
      CHECK_EQ( g.a, first, str< N >( i ) ); CHECK_EQ( g.b, first + 1 );
    } );
    // And back again.
    LvArray::ArrayView< int, N, LvArray::typeManipulation::getStrideOneDimension( PERM {} ), INDEX, MallocBuffer > back( v );
    for( int k = 0; k < N; ++k ) { CHECK_EQ( long( back.size( k ) ), d[ k ], "back, dimension ", k ); CHECK_EQ( long( back.strides()[ k ] ), long( a.strides()[ k ] ), "back, stride ", k ); }
    CHECK( back.data() == a.data() );
    CHECK_EQ( long( back.capacity() ), long( a.capacity() ) );
    if( prod< N >( e ) > 1 ) s.nontrivial();
  };
  if( ratio == 2 ) run( Pair {} ); else run( Triple {} );
}

/// Arrays of arrays of arrays: the nested views alias every level.
static void nested( Src & s )
{
  using Inner = LvArray::Array< std::string, 1, RAJA::PERM_I, int, MallocBuffer >;
  using Mid = LvArray::Array< Inner, 2, RAJA::PERM_JI, std::ptrdiff_t, MallocBuffer >;
  Ix< 2 > const d = genDims< 2 >( s, 4, 12 );
  Mid a( d[ 0 ], d[ 1 ] );
  std::map< std::pair< long, long >, std::vector< int > > m;
  int c = 0;
  long total = 0;
  forAll< 2 >( d, [&]( Ix< 2 > const & i ) { int const n = s.range( 0, 4 ); auto & w = m[ { i[ 0 ], i[ 1 ] } ]; for( int q = 0; q < n; ++q ) { ++c; ++total; a( i[ 0 ], i[ 1 ] ).emplace_back( mk< std::string >( c ) ); w.push_back( c ); } } );
  LOG( s, "dims=" << str< 2 >( d ) << " values=" << total );
  auto const & v = a.toNestedView();
  auto const & vc = a.toNestedViewConst();
  static_assert( std::is_same< std::remove_const_t< std::remove_reference_t< decltype( v( 0, 0 ) ) > >, LvArray::ArrayView< std::string, 1, 0, int, MallocBuffer > >::value, "nested view" );
  static_assert( std::is_same< std::remove_const_t< std::remove_reference_t< decltype( vc( 0, 0 ) ) > >, LvArray::ArrayView< std::string const, 1, 0, int, MallocBuffer > >::value, "nested const view" );
  auto const checkAll = [&]()
  {
    forAll< 2 >( d, [&]( Ix< 2 > const & i )
    {
      auto const & w = m[ { i[ 0 ], i[ 1 ] } ];
      CHECK_EQ( long( v( i[ 0 ], i[ 1 ] ).size() ), long( w.size() ) );
      CHECK_EQ( long( vc[ i[ 0 ] ][ i[ 1 ] ].size() ), long( w.size() ) );
      for( long q = 0; q < long( w.size() ); ++q )
      {
        CHECK_EQ( val( v( i[ 0 ], i[ 1 ] )[ q ] ), w[ q ] );
        CHECK_EQ( val( vc( i[ 0 ], i[ 1 ] )( q ) ), w[ q ] );
        CHECK( &v[ i[ 0 ] ][ i[ 1 ] ][ q ] == &a( i[ 0 ], i[ 1 ] )[ q ] && &vc( i[ 0 ], i[ 1 ] )[ q ] == &a( i[ 0 ], i[ 1 ] )[ q ], "nested view does not alias" );
      }
    } );
  };
  checkAll();
  forAll< 2 >( d, [&]( Ix< 2 > const & i ) { auto & w = m[ { i[ 0 ], i[ 1 ] } ]; for( long q = 0; q < long( w.size() ); ++q ) { ++c; v( i[ 0 ], i[ 1 ] )[ q ] = mk< std::string >( c ); w[ q ] = c; } } );
  checkAll();
  // Copies of the outer array are deep at every level.
  Mid b( a );
  forAll< 2 >( d, [&]( Ix< 2 > const & i ) { auto & w = b( i[ 0 ], i[ 1 ] ); CHECK_EQ( long( w.size() ), long( a( i[ 0 ], i[ 1 ] ).size() ) ); w.resizeDefault( 3, "x" ); } );
  checkAll();
  if( total > 3 ) s.nontrivial();
}

using Fn = void ( * )( Src & );
#define DEF( NAME, ... ) static void NAME( Src & s ) { static Fn const f[] = { __VA_ARGS__ }; f[ s.range< int >( 0, sizeof( f ) / sizeof( f[ 0 ] ) - 1 ) ]( s ); }
using P = std::ptrdiff_t;
DEF( alias, aliasing< int, 1, RAJA::PERM_I, P >, aliasing< double, 2, RAJA::PERM_IJ, int >, aliasing< short, 2, RAJA::PERM_JI, P >, aliasing< int, 3, RAJA::PERM_KIJ, P >, aliasing< double, 4, RAJA::PERM_LIKJ, P > )
DEF( slice, slices< 1, RAJA::PERM_I, P >, slices< 2, RAJA::PERM_IJ, P >, slices< 2, RAJA::PERM_JI, int >, slices< 3, RAJA::PERM_IJK, P >, slices< 3, RAJA::PERM_IKJ, P >, slices< 3, RAJA::PERM_JIK, P >, slices< 3, RAJA::PERM_JKI, P >,
     slices< 3, RAJA::PERM_KIJ, P >, slices< 3, RAJA::PERM_KJI, P >, slices< 4, RAJA::PERM_IJKL, P >, slices< 4, RAJA::PERM_LKJI, P >, slices< 4, RAJA::PERM_JLIK, P >, slices< 4, RAJA::PERM_KIJL, P >, slices< 4, RAJA::PERM_IKLJ, P > )
DEF( types, retype< 1, RAJA::PERM_I, P >, retype< 2, RAJA::PERM_IJ, int >, retype< 2, RAJA::PERM_JI, P >, retype< 3, RAJA::PERM_KIJ, P >, retype< 3, RAJA::PERM_IKJ, P > )
static Registrar r1( "views.alias", alias, 3000, "two or more changes to an array of several values" );
static Registrar r2( "views.slices", slice, 8000, "a multi dimensional array of more than three values" );
static Registrar r3( "views.retype", types, 6000, "more than one reinterpreted value" );
static Registrar r4( "views.nested", nested, 2000, "more than three nested values", true );
