// C11: every multi index addresses its own element; all access paths agree.
#include "arr.hpp"
using namespace pbt;
using namespace lv;

template< int N, typename PERM, typename INDEX, template< typename > class BUF >
void indexBijection( Src & s )
{
  using A = LvArray::Array< int, N, PERM, INDEX, BUF >;
  Ix< N > const dims = genDims< N >( s, N == 1 ? 40 : 7, 300 );
  LOG( s, "N=" << N << " dims=" << str< N >( dims ) );
  A a;
  switch( s.range( 0, 2 ) )
  {
    case 0: resizeTo( a, dims ); break;
    case 1: { A b( 3 ); ( void ) b; INDEX d[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = INDEX( dims[ k ] ); a.resize( N, d ); break; }
    default:
      // Build one dimension at a time.
      {
        Ix< N > ones; ones.fill( 1 ); resizeTo( a, ones );
        for( int k = 0; k < N; ++k ) { a.setSingleParameterResizeIndex( k ); a.resize( INDEX( dims[ k ] ) ); }
      }
  }
  long const total = prod< N >( dims );
  Ix< N > const want = wantStrides< N, PERM >( dims );
  CHECK_EQ( long( a.size() ), total );
  CHECK_EQ( long( LvArray::indexing::multiplyAll< N >( a.dims() ) ), total );
  auto const view = a.toView();
  auto const viewC = a.toViewConst();
  auto const slice = a.toSlice();
  auto const sliceC = a.toSliceConst();
  auto const perm = LvArray::typeManipulation::asArray( PERM {} );
  CHECK_EQ( int( A::USD ), int( perm[ N - 1 ] ), "unit stride dimension" );
  CHECK_EQ( long( a.strides()[ A::USD ] ), 1L );
  for( int k = 0; k < N; ++k )
  {
    CHECK_EQ( long( a.size( k ) ), dims[ k ], k );
    CHECK_EQ( long( a.strides()[ k ] ), want[ k ], "stride ", k, " dims ", str< N >( dims ) );
    CHECK_EQ( long( view.size( k ) ), dims[ k ] ); CHECK_EQ( long( view.strides()[ k ] ), want[ k ] );
    CHECK_EQ( long( viewC.size( k ) ), dims[ k ] ); CHECK_EQ( long( viewC.strides()[ k ] ), want[ k ] );
    CHECK_EQ( long( slice.size( k ) ), dims[ k ] ); CHECK_EQ( long( slice.stride( k ) ), want[ k ] );
    CHECK_EQ( long( sliceC.size( k ) ), dims[ k ] ); CHECK_EQ( long( sliceC.stride( k ) ), want[ k ] );
  }
  CHECK( a.data() == view.data() && a.data() == viewC.data(), "views do not share the data" );
  CHECK( a.begin() == a.data() && a.end() == a.data() + total, "begin and end do not span the data" );
  CHECK( slice.begin() == a.data() && slice.end() == a.data() + total, "slice begin and end do not span the data" );
  CHECK( slice.dataIfContiguous() == a.data() );
  std::vector< char > seen( total, 0 );
  long visited = 0;
  forAll< N >( dims, [&]( Ix< N > const & i )
  {
    long lin = 0;
    for( int k = 0; k < N; ++k ) lin += i[ k ] * want[ k ];
    CHECK( lin >= 0 && lin < total, "oracle" );
    CHECK( !seen[ lin ], "two indices address element ", lin );
    seen[ lin ] = 1;
    CHECK_EQ( long( linear< N >( a, i ) ), lin, str< N >( i ), " in ", str< N >( dims ) );
    CHECK_EQ( long( linear< N >( view, i ) ), lin ); CHECK_EQ( long( linear< N >( slice, i ) ), lin ); CHECK_EQ( long( linear< N >( viewC, i ) ), lin );
    int const * const p = a.data() + lin;
    CHECK( &at< N >( a, i ) == p, "array call operator at ", str< N >( i ), " of ", str< N >( dims ) );
    CHECK( &at< N >( view, i ) == p, "view call operator at ", str< N >( i ) );
    CHECK( &at< N >( viewC, i ) == p, "const view call operator at ", str< N >( i ) );
    CHECK( &at< N >( slice, i ) == p && &at< N >( sliceC, i ) == p, "slice call operator at ", str< N >( i ) );
    CHECK( &chain< N >( a, i ) == p, "array chained brackets at ", str< N >( i ), " of ", str< N >( dims ) );
    CHECK( &chain< N >( view, i ) == p && &chain< N >( viewC, i ) == p, "view chained brackets at ", str< N >( i ) );
    CHECK( &chain< N >( slice, i ) == p && &chain< N >( sliceC, i ) == p, "slice chained brackets at ", str< N >( i ) );
    CHECK( &a.begin()[ lin ] == p );
    // Sub slices: fix the first D indices, then address by the rest.
    forPrefixes< N >( view, i, [&]( auto d, auto const & sub )
    {
      constexpr int D = decltype( d )::value;
      Ix< N - D > const rest = tail< N, D >( i );
      CHECK( &at< N - D >( sub, rest ) == p, "sub slice of ", D, " indices at ", str< N >( i ) );
      CHECK( &chain< N - D >( sub, rest ) == p, "chained sub slice of ", D, " indices at ", str< N >( i ) );
      long sz = 1;
      for( int k = D; k < N; ++k ) { CHECK_EQ( long( sub.size( k - D ) ), dims[ k ] ); sz *= dims[ k ]; }
      CHECK_EQ( long( sub.size() ), sz );
    } );
    CHECK_EQ( long( LvArray::indexing::invalidIndices( a.dims(), int( i[ 0 ] ) ) ), 0L );
    ++visited;
  } );
  CHECK_EQ( visited, total );
  // Write through one path, read through the others.
  int c = 0;
  forAll< N >( dims, [&]( Ix< N > const & i ) { at< N >( a, i ) = ++c; } );
  c = 0;
  forAll< N >( dims, [&]( Ix< N > const & i ) { ++c; CHECK_EQ( chain< N >( sliceC, i ), c, str< N >( i ) ); CHECK_EQ( viewC.data()[ linear< N >( view, i ) ], c ); } );
  long sum = 0;
  for( int x : a ) sum += x;
  CHECK_EQ( sum, total * ( total + 1 ) / 2, "iteration" );
  if( total > 0 ) { CHECK( &a.front() == a.data() && &a.back() == a.data() + total - 1 ); }
  int big = 0;
  for( int k = 0; k < N; ++k ) big += dims[ k ] > 1;
  if( big >= ( N > 1 ? 2 : 1 ) ) s.nontrivial();
  if( total == 0 ) s.label( "empty" );
}

/// The calculation of strides and linear indices alone, on lengths too large to allocate.
template< int N, typename PERM, typename INDEX >
void bigStrides( Src & s )
{
  LvArray::typeManipulation::CArray< INDEX, N > dims {};
  Ix< N > d {}, i {};
  unsigned __int128 budget = ( unsigned __int128 ) std::numeric_limits< INDEX >::max();
  for( int k = 0; k < N; ++k )
  {
    long const hi = long( std::min< unsigned __int128 >( budget, std::numeric_limits< long >::max() ) );
    d[ k ] = std::max( 1L, s.integer< long >( 1, s.boolean() ? hi : std::min( hi, 2000L ) ) );
    budget /= d[ k ];
    if( budget < 1 ) budget = 1;
    i[ k ] = s.integer< long >( 0, d[ k ] - 1 );
    dims[ k ] = INDEX( d[ k ] );
  }
  LOG( s, "dims=" << str< N >( d ) << " index=" << str< N >( i ) );
  auto const strides = LvArray::indexing::calculateStrides< PERM >( dims );
  Ix< N > const want = wantStrides< N, PERM >( d );
  long lin = 0;
  for( int k = 0; k < N; ++k ) { CHECK_EQ( long( strides[ k ] ), want[ k ], k, " ", str< N >( d ) ); lin += want[ k ] * i[ k ]; }
  LvArray::ArraySlice< int, N, LvArray::typeManipulation::getStrideOneDimension( PERM {} ), INDEX > const sl( nullptr, dims.data, strides.data );
  CHECK_EQ( long( linear< N >( sl, i ) ), lin, str< N >( i ), " of ", str< N >( d ) );
  CHECK_EQ( long( sl.size() ), prod< N >( d ) );
  CHECK( sl.isContiguous(), str< N >( d ) );
  // Index validation at and around the ends of each dimension.
  for( int k = 0; k < N; ++k )
    for( long bad : { -1L, d[ k ] } )
    {
      if( bad > long( std::numeric_limits< INDEX >::max() ) || ( bad == d[ k ] && d[ k ] == std::numeric_limits< long >::max() ) ) continue;
      Ix< N > j = i; j[ k ] = bad;
      bool const inv = [&]< std::size_t... K >( std::index_sequence< K... > ) { return LvArray::indexing::invalidIndices( dims.data, INDEX( j[ K ] ) ... ); }( std::make_index_sequence< N >() );
      CHECK( inv, "index ", str< N >( j ), " of ", str< N >( d ), " taken as valid" );
    }
  bool const inv = [&]< std::size_t... K >( std::index_sequence< K... > ) { return LvArray::indexing::invalidIndices( dims.data, INDEX( i[ K ] ) ... ); }( std::make_index_sequence< N >() );
  CHECK( !inv, "index ", str< N >( i ), " of ", str< N >( d ), " taken as invalid" );
  int big = 0;
  for( int k = 0; k < N; ++k ) big += d[ k ] > 1000;
  if( big ) s.nontrivial();
}

/// Indices of other types than the index type, small ones in arrays that are longer than their square included.
template< typename F > void withType( std::size_t const t, long const v, F && f )
{
  switch( t )
  {
    case 0: return f( static_cast< signed char >( v ) );
    case 1: return f( static_cast< short >( v ) );
    case 2: return f( static_cast< int >( v ) );
    case 3: return f( v );
    case 4: return f( static_cast< unsigned char >( v ) );
    case 5: return f( static_cast< unsigned short >( v ) );
    case 6: return f( static_cast< unsigned int >( v ) );
    default: return f( static_cast< unsigned long long >( v ) );
  }
}
static long const LARGEST[] = { 127, 32767, std::numeric_limits< int >::max(), std::numeric_limits< long >::max(), 255, 65535, std::numeric_limits< unsigned int >::max(), std::numeric_limits< long >::max() };
template< int N, typename PERM, typename INDEX >
void indexTypes( Src & s )
{
  using A = LvArray::Array< char, N, PERM, INDEX, LvArray::MallocBuffer >;
  static char const * const names[] = { "signed char", "short", "int", "long", "unsigned char", "unsigned short", "unsigned int", "unsigned long long" };
  Ix< N > dims {};
  long room = 200000;
  for( int k = 0; k < N; ++k ) { dims[ k ] = k == N - 1 && s.boolean() ? std::max( 1L, room - s.range( 0, 50 ) ) : s.range( 1, int( std::min( room, 700L ) ) ); room /= dims[ k ]; if( room < 1 ) room = 1; }
  for( int k = N - 1; k > 0; --k ) std::swap( dims[ k ], dims[ s.range( 0, k ) ] );
  A a; resizeTo( a, dims );
  auto const view = a.toView(); auto const viewC = a.toViewConst(); auto const slice = a.toSlice(); auto const sliceC = a.toSliceConst();
  Ix< N > const want = wantStrides< N, PERM >( dims );
  LOG( s, "dims=" << str< N >( dims ) );
  int n = 0; bool narrow = false;
  while( s.more( n, 40, 20 ) )
  {
    Span sp( s ); ++n;
    Ix< N > i {}; std::size_t t[ N ]; long lin = 0;
    for( int k = 0; k < N; ++k )
    {
      t[ k ] = s.choose( N == 3 ? 3 : 7 );
      long const hi = std::min( dims[ k ] - 1, LARGEST[ t[ k ] ] );
      i[ k ] = s.boolean() ? hi - s.range< int >( 0, int( std::min( hi, 3L ) ) ) : s.integer< long >( 0, hi );
      lin += i[ k ] * want[ k ];
      narrow = narrow || ( i[ k ] * want[ k ] > LARGEST[ t[ k ] ] );
    }
    char const * const p = a.data() + lin;
    LOG( s, "index " << str< N >( i ) << " of types " << names[ t[ 0 ] ] << ", " << names[ t[ N - 1 ] ] );
    auto check = [&]( auto ... x )
    {
      CHECK( &a( x ... ) == p && &view( x ... ) == p && &viewC( x ... ) == p && &slice( x ... ) == p && &sliceC( x ... ) == p, "call operator at ", str< N >( i ), " of ", str< N >( dims ) );
      CHECK_EQ( long( a.linearIndex( x ... ) ), lin ); CHECK_EQ( long( slice.linearIndex( x ... ) ), lin ); CHECK_EQ( long( viewC.linearIndex( x ... ) ), lin );
      CHECK( !LvArray::indexing::invalidIndices( a.dims(), x ... ), "indices ", str< N >( i ), " of ", str< N >( dims ), " taken as invalid" );
    };
    withType( t[ 0 ], i[ 0 ], [&]( auto x )
    {
      if constexpr( N == 1 ) { check( x ); CHECK( &a[ x ] == p && &view[ x ] == p && &slice[ x ] == p ); }
      else withType( t[ 1 ], i[ 1 ], [&]( auto y )
      {
        if constexpr( N == 2 ) { check( x, y ); CHECK( &a[ x ][ y ] == p && &view[ x ][ y ] == p && &slice[ x ][ y ] == p && &viewC[ x ][ y ] == p, "brackets at ", str< N >( i ) ); }
        else if constexpr( sizeof( x ) <= 8 && std::is_signed< decltype( x ) >::value && std::is_signed< decltype( y ) >::value )
          withType( t[ 2 ], i[ 2 ], [&]( auto z ) { if constexpr( std::is_signed< decltype( z ) >::value ) { check( x, y, z ); CHECK( &slice[ x ][ y ][ z ] == p, "brackets at ", str< N >( i ) ); } } );
      } );
    } );
  }
  if( narrow ) s.nontrivial();
}

template< int N > using Body = void ( * )( Src & );
#define FORP( X ) X( 2, PERM_IJ ) X( 2, PERM_JI ) X( 3, PERM_IJK ) X( 3, PERM_IKJ ) X( 3, PERM_JIK ) X( 3, PERM_JKI ) X( 3, PERM_KIJ ) X( 3, PERM_KJI ) \
  X( 4, PERM_IJKL ) X( 4, PERM_IJLK ) X( 4, PERM_IKJL ) X( 4, PERM_IKLJ ) X( 4, PERM_ILJK ) X( 4, PERM_ILKJ ) X( 4, PERM_JIKL ) X( 4, PERM_JILK ) X( 4, PERM_JKIL ) \
  X( 4, PERM_JKLI ) X( 4, PERM_JLIK ) X( 4, PERM_JLKI ) X( 4, PERM_KIJL ) X( 4, PERM_KILJ ) X( 4, PERM_KJIL ) X( 4, PERM_KJLI ) X( 4, PERM_KLIJ ) X( 4, PERM_KLJI ) \
  X( 4, PERM_LIJK ) X( 4, PERM_LIKJ ) X( 4, PERM_LJIK ) X( 4, PERM_LJKI ) X( 4, PERM_LKIJ ) X( 4, PERM_LKJI ) \
  X( 5, PERM_IJKLM ) X( 5, PERM_MLKJI ) X( 5, PERM_KMILJ ) X( 5, PERM_JIMKL )
using Fn = void ( * )( Src & );
static void low( Src & s )
{
  static Fn const f[] = { indexBijection< 1, RAJA::PERM_I, std::ptrdiff_t, LvArray::MallocBuffer >, indexBijection< 1, RAJA::PERM_I, int, LvArray::MallocBuffer >,
    indexBijection< 2, RAJA::PERM_IJ, int, LvArray::MallocBuffer >, indexBijection< 2, RAJA::PERM_JI, int, LvArray::MallocBuffer >,
    indexBijection< 3, RAJA::PERM_KIJ, int, LvArray::MallocBuffer >, indexBijection< 3, RAJA::PERM_JKI, int, LvArray::MallocBuffer > };
  f[ s.range( 0, 5 ) ]( s );
}
static void all( Src & s )
{
#define X( N, P ) indexBijection< N, RAJA::P, std::ptrdiff_t, LvArray::MallocBuffer >,
  static Fn const f[] = { FORP( X ) };
#undef X
  f[ s.range< int >( 0, sizeof( f ) / sizeof( f[ 0 ] ) - 1 ) ]( s );
}
static void big( Src & s )
{
#define X( N, P ) bigStrides< N, RAJA::P, std::ptrdiff_t >, bigStrides< N, RAJA::P, int >,
  static Fn const f[] = { FORP( X ) };
#undef X
  f[ s.range< int >( 0, sizeof( f ) / sizeof( f[ 0 ] ) - 1 ) ]( s );
}
static void types( Src & s )
{
  static Fn const f[] = { indexTypes< 1, RAJA::PERM_I, std::ptrdiff_t >, indexTypes< 1, RAJA::PERM_I, int >, indexTypes< 2, RAJA::PERM_IJ, std::ptrdiff_t >, indexTypes< 2, RAJA::PERM_JI, int >,
    indexTypes< 2, RAJA::PERM_JI, std::ptrdiff_t >, indexTypes< 2, RAJA::PERM_IJ, int >, indexTypes< 3, RAJA::PERM_IJK, std::ptrdiff_t >, indexTypes< 3, RAJA::PERM_KIJ, int > };
  f[ s.range( 0, 7 ) ]( s );
}
static Registrar r4( "index.types", types, 3000, "an index whose offset does not fit into the type of the index" );
static Registrar r1( "index.low", low, 3000, "at least two dimensions (one in 1-D) longer than one" );
static Registrar r2( "index.all", all, 10000, "at least two dimensions longer than one" );
static Registrar r3( "index.big", big, 40000, "a dimension longer than 1000" );
