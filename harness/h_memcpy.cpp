// C25: memcpy between arrays and slices copies exactly the addressed elements, or reports an error and copies nothing.
#include "arr.hpp"
#include "memcpy.hpp"
using namespace pbt;
using namespace lv;
using LvArray::MallocBuffer;

template< int N > struct Shape { Ix< N > dims, strides; };
/// True if the positions are those of a block without holes (checked on the addresses themselves).
template< int N > bool isBlock( Shape< N > const & a )
{
  std::set< long > seen; long mx = 0;
  forAll< N >( a.dims, [&]( Ix< N > const & i ) { long p = 0; for( int k = 0; k < N; ++k ) p += i[ k ] * a.strides[ k ]; seen.insert( p ); mx = std::max( mx, p ); } );
  return seen.empty() || ( long( seen.size() ) == mx + 1 );
}
/// -1 must be an error, 1 must copy, 0 either.
template< int N > int verdict( Shape< N > const & d, Shape< N > const & s )
{
  if( prod< N >( d.dims ) != prod< N >( s.dims ) ) return -1;
  if( prod< N >( d.dims ) == 0 ) return d.dims == s.dims && d.strides == s.strides ? 1 : 0;
  if( d.dims != s.dims ) return -1;
  bool ones = false, same = true;
  for( int k = 0; k < N; ++k ) { ones = ones || d.dims[ k ] == 1; if( d.dims[ k ] > 1 && d.strides[ k ] != s.strides[ k ] ) same = false; }
  if( !same || !isBlock( d ) || !isBlock( s ) ) return -1;
  return ones || d.strides != s.strides ? 0 : 1;
}

template< typename T, typename INDEX, int N, typename PERM > struct Holder
{
  LvArray::Array< T, N, PERM, INDEX, MallocBuffer > a;
  Logical< N > m;
  Holder( Ix< N > const & d, int first ): m { d, std::vector< int >( prod< N >( d ) ) }
  {
    resizeTo( a, d );
    // Spare capacity after the values must not change either.
    a.reserve( a.size() + 3 );
    for( long i = 0; i < 3; ++i ) a.data()[ a.size() + i ] = T( -7 );
    forAll< N >( d, [&]( Ix< N > const & i ) { at< N >( a, i ) = T( m( i ) = first++ ); } );
  }
  void check( char const * what )
  {
    forAll< N >( m.dims, [&]( Ix< N > const & i ) { CHECK_EQ( at< N >( a, i ), T( m( i ) ), what, " at ", str< N >( i ) ); } );
    for( long i = 0; i < 3; ++i ) CHECK_EQ( a.data()[ a.size() + i ], T( -7 ), what, " after the last value" );
  }
  template< int K > Shape< N - K > shape() const { Shape< N - K > r; for( int k = K; k < N; ++k ) { r.dims[ k - K ] = m.dims[ k ]; r.strides[ k - K ] = wantStrides< N, PERM >( m.dims )[ k ]; } return r; }
};

template< typename T, typename DI, int DN, typename DP, int DK, typename SI, int SN, typename SP, int SK >
void one( Src & s, int & good, int & bad )
{
  constexpr int R = DN - DK;
  static_assert( R == SN - SK, "" );
  long const f = s.large( 30 );
  long const maxLen = 6 * f, maxTotal = 300 * f;
  Ix< DN > dd = genDims< DN >( s, maxLen, maxTotal );
  Ix< SN > sd = genDims< SN >( s, maxLen, maxTotal );
  // Something to index.
  for( int k = 0; k < DK; ++k ) dd[ k ] = std::max( dd[ k ], 1L );
  for( int k = 0; k < SK; ++k ) sd[ k ] = std::max( sd[ k ], 1L );
  int const how = s.weighted( { 7, 1, 1, 1 } );
  for( int k = 0; k < R; ++k ) sd[ SK + k ] = dd[ DK + k ];
  // Wrong: one length, two lengths exchanged, or unrelated.
  if( how == 1 ) sd[ SK + s.range( 0, R - 1 ) ] = s.range( 0, 6 );
  if( how == 2 && R > 1 ) { int const x = s.range( 0, R - 2 ); std::swap( sd[ SK + x ], sd[ SK + x + 1 ] ); }
  if( how == 3 ) for( int k = 0; k < R; ++k ) sd[ SK + k ] = s.range( 0, 4 );
  Holder< T, DI, DN, DP > d( dd, 1000 );
  Holder< T, SI, SN, SP > src( sd, 1 );
  std::array< DI, DK > di; std::array< SI, SK > si;
  Ix< DN > dAt {}; Ix< SN > sAt {};
  for( int k = 0; k < DK; ++k ) di[ k ] = dAt[ k ] = s.range< long >( 0, dd[ k ] - 1 );
  for( int k = 0; k < SK; ++k ) si[ k ] = sAt[ k ] = s.range< long >( 0, sd[ k ] - 1 );
  int const v = verdict< R >( d.template shape< DK >(), src.template shape< SK >() );
  int const form = s.range( 0, 3 );
  LOG( s, "copy " << str< SN >( sd ) << " at " << str< SN >( sAt ) << " to " << str< DN >( dd ) << " at " << str< DN >( dAt ) << " dropping " << SK << ", " << DK << " form " << form << " verdict " << v );
  bool const e = reportsError( [&]()
  {
    camp::resources::Resource r { camp::resources::Host {} };
    auto const dv = d.a.toView(); auto const sv = src.a.toViewConst();
    auto const ds = LvArray::internal::slice< DK >( d.a.toSlice(), di.data() );
    auto const ss = LvArray::internal::slice< SK >( src.a.toSliceConst(), si.data() );
    if( form == 0 ) LvArray::memcpy< DK, SK >( dv, di, sv, si );
    else if( form == 1 ) { camp::resources::Event ev = LvArray::memcpy< DK, SK >( r, dv, di, sv, si ); ev.wait(); }
    else if( form == 2 ) LvArray::memcpy( ds, ss );
    else { camp::resources::Event ev = LvArray::memcpy( r, ds, ss ); ev.wait(); }
  } );
  if( v != 0 ) CHECK_EQ( e, v < 0, "error" );
  if( !e )
  {
    Ix< R > rd {}; for( int k = 0; k < R; ++k ) rd[ k ] = dd[ DK + k ];
    forAll< R >( rd, [&]( Ix< R > const & i ) { for( int k = 0; k < R; ++k ) { dAt[ DK + k ] = i[ k ]; sAt[ SK + k ] = i[ k ]; } d.m( dAt ) = src.m( sAt ); } );
    if( prod< R >( rd ) > 1 ) ++good;
  }
  else ++bad;
  d.check( "destination" ); src.check( "source" );
}

/// A prefix of an array copied onto another place of the same array.
template< typename T, typename INDEX, typename PERM >
void within( Src & s, int & good )
{
  Ix< 3 > d = genDims< 3 >( s, 5, 200 );
  d[ 0 ] = std::max( d[ 0 ], 1L );
  Holder< T, INDEX, 3, PERM > a( d, 1 );
  INDEX const from = s.range< long >( 0, d[ 0 ] - 1 ), to = s.range< long >( 0, d[ 0 ] - 1 );
  LOG( s, "within " << str< 3 >( d ) << " " << from << " -> " << to );
  if( d[ 1 ] * d[ 2 ] == 0 || from == to ) return;
  int const v = verdict< 2 >( a.template shape< 1 >(), a.template shape< 1 >() );
  bool const e = reportsError( [&]() { LvArray::memcpy< 1, 1 >( a.a.toView(), { to }, a.a.toViewConst(), { from } ); } );
  if( v != 0 ) CHECK_EQ( e, v < 0 );
  if( !e ) { ++good; for( long j = 0; j < d[ 1 ]; ++j ) for( long k = 0; k < d[ 2 ]; ++k ) a.m( { to, j, k } ) = a.m( { from, j, k } ); }
  a.check( "array" );
}

using namespace RAJA;
template< typename T, typename DI, typename SI >
void copies( Src & s )
{
  int good = 0, bad = 0;
  std::size_t n = 0;
  while( s.more( n, 8, 4 ) )
  {
    Span sp( s ); ++n;
    switch( s.range( 0, 19 ) )
    {
      case 0: one< T, DI, 1, PERM_I, 0, SI, 1, PERM_I, 0 >( s, good, bad ); break;
      case 1: one< T, DI, 2, PERM_IJ, 1, SI, 1, PERM_I, 0 >( s, good, bad ); break;
      case 2: one< T, DI, 1, PERM_I, 0, SI, 2, PERM_IJ, 1 >( s, good, bad ); break;
      case 3: one< T, DI, 2, PERM_IJ, 0, SI, 2, PERM_IJ, 0 >( s, good, bad ); break;
      case 4: one< T, DI, 2, PERM_JI, 0, SI, 2, PERM_JI, 0 >( s, good, bad ); break;
      case 5: one< T, DI, 4, PERM_JIKL, 1, SI, 3, PERM_IJK, 0 >( s, good, bad ); break;
      case 6: one< T, DI, 3, PERM_IJK, 1, SI, 2, PERM_IJ, 0 >( s, good, bad ); break;
      case 7: one< T, DI, 3, PERM_IKJ, 1, SI, 2, PERM_JI, 0 >( s, good, bad ); break;
      case 8: one< T, DI, 3, PERM_IKJ, 1, SI, 3, PERM_IKJ, 1 >( s, good, bad ); break;
      case 9: one< T, DI, 3, PERM_IJK, 2, SI, 1, PERM_I, 0 >( s, good, bad ); break;
      case 10: one< T, DI, 3, PERM_JIK, 1, SI, 2, PERM_IJ, 0 >( s, good, bad ); break;
      case 11: one< T, DI, 3, PERM_JIK, 1, SI, 3, PERM_JIK, 1 >( s, good, bad ); break;
      case 12: one< T, DI, 4, PERM_IJKL, 2, SI, 3, PERM_IJK, 1 >( s, good, bad ); break;
      case 13: one< T, DI, 4, PERM_IJLK, 2, SI, 3, PERM_IKJ, 1 >( s, good, bad ); break;
      case 14: one< T, DI, 1, PERM_I, 0, SI, 4, PERM_IJKL, 3 >( s, good, bad ); break;
      case 15: one< T, DI, 3, PERM_KJI, 0, SI, 3, PERM_KJI, 0 >( s, good, bad ); break;
      case 16: one< T, DI, 3, PERM_JIK, 2, SI, 1, PERM_I, 0 >( s, good, bad ); break;
      case 17: one< T, DI, 3, PERM_JKI, 0, SI, 4, PERM_IKLJ, 1 >( s, good, bad ); break;
      case 18: within< T, DI, PERM_IJK >( s, good ); break;
      default: within< T, SI, PERM_IKJ >( s, good );
    }
  }
  if( good > 1 ) s.nontrivial();
  if( bad > 0 ) s.label( "error reported" );
}
static char const * const rule = "at least two copies of more than one element succeed";
static Registrar r1( "memcpy.int", copies< int, int, int >, 8000, rule );
static Registrar r2( "memcpy.double", copies< double, long, int >, 8000, rule );
static Registrar r3( "memcpy.long", copies< long, int, long long >, 8000, rule );
static Registrar r4( "memcpy.short", copies< short, std::ptrdiff_t, std::ptrdiff_t >, 6000, rule );
