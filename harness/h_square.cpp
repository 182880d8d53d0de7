// C28: determinant, inverse and the operations on symmetric storage of 2x2 and 3x3 matrices equal the dense definitions.
#include "tensor.hpp"
using namespace pbt;
using namespace lv;
using T = TENSOR_T;
using TA = TENSOR_A;
using TB = TENSOR_B;
static Real const EPS = coarsest< T, TA, TB >();
static constexpr bool floating = std::is_floating_point< T >::value && std::is_floating_point< TA >::value && std::is_floating_point< TB >::value;
static constexpr bool sameTypes = std::is_same< T, TA >::value && std::is_same< T, TB >::value;
static constexpr bool FP = std::is_floating_point< T >::value;

enum { DET, INVERT, INVERTIN, SYMDET, SYMINVERT, SYMINVERTIN, RI_EQ, RI_ADD, RIJ, AIKBKLAJL, AIAJ, AIBJ, TOSYM, TODENSE, NOPS };
static char const * const names[] = { "determinant", "invert", "invert in place", "symDeterminant", "symInvert", "symInvert in place", "Ri_eq_symAijBj", "Ri_add_symAijBj",
                                      "Rij_eq_symAikBjk", "Rij_eq_AikSymBklAjl", "symRij_eq_AiAj", "symRij_eq_AiBj_plus_AjBi", "denseToSymmetric", "symmetricToDense" };
/// Destinations: matrix dm, symmetric ds, vector dv. Sources: matrix am, symmetric as, vectors av, bv, matrix bm, symmetric bs.
struct Args { Mat< T > & dm; Vec< T > & ds; Vec< T > & dv; Mat< TA > & am; Vec< TA > & as; Vec< TA > & av; Vec< TB > & bv; Mat< TB > & bm; Vec< TB > & bs; Real r = 0; };
using Call = void ( * )( int, Args & );
template< int M, int KD, int KA, int KB > void callSquare( int op, Args & q )
{
  constexpr int S = M * ( M + 1 ) / 2;
  auto && dm = dst< M, M, KD >( q.dm ); auto && ds = dst< S, KD >( q.ds ); auto && dv = dst< M, KD >( q.dv );
  auto && am = src< M, M, KA >( q.am ); auto && as = src< S, KA >( q.as ); auto && av = src< M, KA >( q.av );
  auto && bm = src< M, M, KB >( q.bm ); auto && bs = src< S, KB >( q.bs ); auto && bv = src< M, KB >( q.bv );
  switch( op )
  {
    case DET: q.r = tensorOps::determinant< M >( am ); break;
    case INVERT: if constexpr( FP ) q.r = tensorOps::invert< M >( dm, am ); break;
    case INVERTIN: if constexpr( FP ) q.r = tensorOps::invert< M >( dm ); break;
    case SYMDET: q.r = tensorOps::symDeterminant< M >( as ); break;
    case SYMINVERT: if constexpr( FP ) q.r = tensorOps::symInvert< M >( ds, as ); break;
    case SYMINVERTIN: if constexpr( FP ) q.r = tensorOps::symInvert< M >( ds ); break;
    case RI_EQ: tensorOps::Ri_eq_symAijBj< M >( dv, as, bv ); break;
    case RI_ADD: tensorOps::Ri_add_symAijBj< M >( dv, as, bv ); break;
    case RIJ: tensorOps::Rij_eq_symAikBjk< M >( dm, as, bm ); break;
    case AIKBKLAJL: tensorOps::Rij_eq_AikSymBklAjl< M >( ds, am, bs ); break;
    case AIAJ: tensorOps::symRij_eq_AiAj< M >( ds, av ); break;
    case AIBJ: tensorOps::symRij_eq_AiBj_plus_AjBi< M >( ds, av, bv ); break;
    case TOSYM: tensorOps::denseToSymmetric< M >( ds, am ); break;
    case TODENSE: tensorOps::symmetricToDense< M >( dm, as ); break;
  }
}
struct Entry { int m, kd, ka, kb; Call call; };

/// Position of entry (i, j) in the symmetric (Voigt) storage.
static int voigt( int M, int i, int j ) { return i == j ? i : M == 2 ? 2 : 6 - i - j; }
using Dense = std::array< std::array< Real, 3 >, 3 >;
struct Det { Real v = 0, mag = 0; };
/// Determinant by the definition, over all permutations, and the sum of the magnitudes of its terms.
static Det detOf( Dense const & a, int M )
{
  int p[ 3 ] = { 0, 1, 2 }; Det d;
  do
  {
    Real t = 1; int inv = 0;
    for( int i = 0; i < M; ++i ) { t *= a[ i ][ p[ i ] ]; for( int j = 0; j < i; ++j ) inv += p[ j ] > p[ i ]; }
    d.v += inv % 2 ? -t : t; d.mag += std::fabs( t );
  }
  while( std::next_permutation( p, p + M ) );
  return d;
}
/// Cofactor of (i, j) with its magnitude.
static Det cofactor( Dense const & a, int M, int i, int j )
{
  Dense b {};
  for( int r = 0, x = 0; r < M; ++r ) if( r != i ) { for( int c = 0, y = 0; c < M; ++c ) if( c != j ) b[ x ][ y++ ] = a[ r ][ c ]; ++x; }
  Det d = detOf( b, M - 1 );
  if( ( i + j ) % 2 ) d.v = -d.v;
  return d;
}
struct Ctx { Src & s; bool exact; char const * what = ""; int inverses = 0; };
static void checkDet( Ctx & c, Real got, Det const & d )
{
  if( c.exact ) CHECK_EQ( got, d.v, c.what );
  else CHECK( std::fabs( got - d.v ) <= 32 * EPS * d.mag + Real( std::numeric_limits< TA >::min() ), c.what, " ", got, " expected ", d.v );
}
/// inv, as accessor, is the inverse of a as accurately as the determinant formula permits.
template< typename F > void checkInverse( Ctx & c, Dense const & a, int M, F && inv )
{
  Det const d = detOf( a, M );
  Real const rel = d.mag * 64 * std::max( EPS, Real( std::numeric_limits< T >::epsilon() ) ) / std::fabs( d.v );
  Real const big = Real( std::numeric_limits< T >::max() ) / 64;
  if( d.v == 0 || rel > 0.1 || 1 / std::fabs( d.v ) > big || std::fabs( d.v ) > big ) return;
  for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) if( cofactor( a, M, i, j ).mag > std::fabs( d.v ) * big ) return;
  ++c.inverses;
  Real const eps = 64 * std::max( EPS, Real( std::numeric_limits< T >::epsilon() ) );
  for( int i = 0; i < M; ++i )
    for( int j = 0; j < M; ++j )
    {
      Det const f = cofactor( a, M, j, i );
      Real const want = f.v / d.v, tol = std::fabs( f.mag / d.v ) * eps + std::fabs( want ) * rel + Real( std::numeric_limits< T >::min() );
      CHECK( std::fabs( inv( i, j ) - want ) <= tol, c.what, " (", i, ",", j, ") is ", inv( i, j ), " expected ", want, " +- ", tol );
    }
}
static void one( Ctx & c, Entry const & e )
{
  int const M = e.m, S = M * ( M + 1 ) / 2;
  Mat< T > dm( c.s, c.exact, M, M, e.kd ); Vec< T > ds( c.s, c.exact, S, e.kd ), dv( c.s, c.exact, M, e.kd );
  Mat< TA > am( c.s, c.exact, M, M, e.ka ); Vec< TA > as( c.s, c.exact, S, e.ka ), av( c.s, c.exact, M, e.ka );
  Mat< TB > bm( c.s, c.exact, M, M, e.kb ); Vec< TB > bs( c.s, c.exact, S, e.kb ), bv( c.s, c.exact, M, e.kb );
  int op = c.s.range( 0, NOPS - 1 );
  if( !FP && ( op == INVERT || op == INVERTIN || op == SYMINVERT || op == SYMINVERTIN ) ) op = DET;
  c.what = names[ op ];
  LOG( c.s, c.what << " " << M << " kinds " << e.kd << e.ka << e.kb );
  Dense ad {}, sd {}, dd {}, dsd {};
  for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) { ad[ i ][ j ] = am.get( i, j ); dd[ i ][ j ] = dm.get( i, j ); sd[ i ][ j ] = as.get( voigt( M, i, j ) ); dsd[ i ][ j ] = ds.get( voigt( M, i, j ) ); }
  // Nothing of the destination remains, unless it is added to or inverted in place.
  if( op != RI_ADD && op != INVERTIN && op != SYMINVERTIN && FP && c.s.boolean() ) for( Operand< T > * o : { static_cast< Operand< T > * >( &dm ), static_cast< Operand< T > * >( &ds ), static_cast< Operand< T > * >( &dv ) } ) { for( T * p : o->e ) *p = std::numeric_limits< T >::quiet_NaN(); o->st.save(); }
  std::vector< Real > old; for( int i = 0; i < M; ++i ) old.push_back( dv.get( i ) );
  Args q { dm, ds, dv, am, as, av, bv, bm, bs };
  e.call( op, q );
  auto sym = [&]( auto & x, int i, int j ) { return Ex( x.get( voigt( M, i, j ) ) ); };
  bool const wroteM = op == INVERT || op == INVERTIN || op == RIJ || op == TODENSE;
  bool const wroteS = op == SYMINVERT || op == SYMINVERTIN || op == AIKBKLAJL || op == AIAJ || op == AIBJ || op == TOSYM;
  bool const wroteV = op == RI_EQ || op == RI_ADD;
  auto gotS = [&]( int i, int j ) { return ds.get( voigt( M, i, j ) ); };
  auto gotM = [&]( int i, int j ) { return dm.get( i, j ); };
  switch( op )
  {
    case DET: checkDet( c, q.r, detOf( ad, M ) ); break;
    case SYMDET: checkDet( c, q.r, detOf( sd, M ) ); break;
    case INVERT: checkDet( c, q.r, detOf( ad, M ) ); checkInverse( c, ad, M, gotM ); break;
    case INVERTIN: checkDet( c, q.r, detOf( dd, M ) ); checkInverse( c, dd, M, gotM ); break;
    case SYMINVERT: checkDet( c, q.r, detOf( sd, M ) ); checkInverse( c, sd, M, gotS ); break;
    case SYMINVERTIN: checkDet( c, q.r, detOf( dsd, M ) ); checkInverse( c, dsd, M, gotS ); break;
    case RI_EQ: case RI_ADD:
      for( int i = 0; i < M; ++i ) { Ex w( op == RI_ADD ? old[ i ] : 0 ); for( int j = 0; j < M; ++j ) w = w + sym( as, i, j ) * Ex( bv.get( j ) ); checkValue( *dv.p( i ), w, EPS, c.exact, c.what, i, 0 ); }
      break;
    case RIJ:
      for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) { Ex w; for( int k = 0; k < M; ++k ) w = w + sym( as, i, k ) * Ex( bm.get( j, k ) ); checkValue( *dm.p( i, j ), w, EPS, c.exact, c.what, i, j ); }
      break;
    case AIKBKLAJL:
      for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j )
      {
        Ex w; for( int k = 0; k < M; ++k ) for( int l = 0; l < M; ++l ) w = w + Ex( am.get( i, k ) ) * sym( bs, k, l ) * Ex( am.get( j, l ) );
        checkValue( *ds.p( voigt( M, i, j ) ), w, EPS, c.exact, c.what, i, j );
      }
      break;
    case AIAJ: for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) checkValue( *ds.p( voigt( M, i, j ) ), Ex( av.get( i ) ) * Ex( av.get( j ) ), EPS, c.exact, c.what, i, j ); break;
    case AIBJ: for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) checkValue( *ds.p( voigt( M, i, j ) ), Ex( av.get( i ) ) * Ex( bv.get( j ) ) + Ex( av.get( j ) ) * Ex( bv.get( i ) ), EPS, c.exact, c.what, i, j ); break;
    case TOSYM: for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) CHECK_EQ( *ds.p( voigt( M, i, j ) ), T( *am.p( i, j ) ), c.what, " ", i, ",", j ); break;
    case TODENSE: for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) CHECK_EQ( *dm.p( i, j ), T( *as.p( voigt( M, i, j ) ) ), c.what, " ", i, ",", j ); break;
  }
  std::set< T * > const none;
  dm.st.checkUnchanged( wroteM ? dm.elements() : none, c.what ); ds.st.checkUnchanged( wroteS ? ds.elements() : none, c.what ); dv.st.checkUnchanged( wroteV ? dv.elements() : none, c.what );
  am.st.checkUnchanged( {}, c.what ); as.st.checkUnchanged( {}, c.what ); av.st.checkUnchanged( {}, c.what );
  bm.st.checkUnchanged( {}, c.what ); bs.st.checkUnchanged( {}, c.what ); bv.st.checkUnchanged( {}, c.what );
}

#define KIND( M, A, B, C ) { M, A, B, C, callSquare< M, A, B, C > }
#define KINDS( M, S ) KIND( M, 0, ( S ) % 6, ( S ) % 6 ), KIND( M, 1, ( S + 1 ) % 6, ( S + 5 ) % 6 ), KIND( M, 2, ( S + 2 ) % 6, ( S + 4 ) % 6 ), \
  KIND( M, 3, ( S + 3 ) % 6, ( S + 3 ) % 6 ), KIND( M, 4, ( S + 4 ) % 6, ( S + 2 ) % 6 ), KIND( M, 5, ( S + 5 ) % 6, ( S + 1 ) % 6 )
static Entry const table2[] = { KINDS( 2, 0 ), KINDS( 2, 1 ), KINDS( 2, 3 ), KINDS( 2, 4 ) };
static Entry const table3[] = { KINDS( 3, 0 ), KINDS( 3, 1 ), KINDS( 3, 3 ), KINDS( 3, 4 ) };
template< std::size_t N > void run( Src & s, Entry const (&table)[ N ] )
{
  Ctx c { s, true };
  std::size_t n = 0;
  while( s.more( n, 12, 5 ) )
  {
    Span sp( s ); ++n;
    c.exact = !floating || !sameTypes || s.boolean();
    one( c, table[ s.choose( N - 1 ) ] );
    s.label( c.what );
  }
  if( n > 1 ) s.nontrivial();
  if( c.inverses ) s.label( "an inverse was judged" );
}
static char const * const rule = "at least two operations";
static Registrar r1( TENSOR_NAME ".square2", []( Src & s ) { run( s, table2 ); }, 25000, rule );
static Registrar r2( TENSOR_NAME ".square3", []( Src & s ) { run( s, table3 ); }, 25000, rule );

#if defined( LVARRAY_BOUNDS_CHECK )
/// Arrays of the wrong size are reported.
template< typename T > void sizes( Src & s )
{
  constexpr bool FP = std::is_floating_point< T >::value;
  int const m = s.range( 1, 5 ), n = s.range( 1, 5 ), op = s.range( 0, NOPS + 1 );
  LvArray::Array< T, 2, RAJA::PERM_IJ, int, LvArray::MallocBuffer > a( m, n );
  LvArray::Array< T, 1, RAJA::PERM_I, int, LvArray::MallocBuffer > v( n ), w( m + n );
  T g[ 3 ][ 3 ] = { { 2, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, sy[ 6 ] = { 1, 1, 1 }, x[ 3 ] = { 1, 1, 1 }, o[ 3 ] = {}, om[ 3 ][ 3 ] = {}, os[ 6 ] = {};
  for( T & y : a ) y = T( 1 );
  for( T & y : v ) y = T( 1 );
  for( T & y : w ) y = T( 1 );
  LOG( s, names[ op % NOPS ] << " " << m << "x" << n << " op " << op );
  int kind = 2; // 1 the vector v, 2 the matrix a, 3 the vector w
  bool const e = reportsError( [&]()
  {
    switch( op )
    {
      case DET: tensorOps::determinant< 3 >( a ); break;
      case INVERT: if constexpr( FP ) tensorOps::invert< 3 >( om, a ); else kind = 0; break;
      case INVERTIN: if constexpr( FP ) tensorOps::invert< 3 >( a ); else kind = 0; break;
      case SYMDET: kind = 3; tensorOps::symDeterminant< 3 >( w ); break;
      case SYMINVERT: kind = 3; if constexpr( FP ) tensorOps::symInvert< 3 >( w, sy ); else kind = 0; break;
      case SYMINVERTIN: kind = 3; if constexpr( FP ) tensorOps::symInvert< 3 >( w ); else kind = 0; break;
      case RI_EQ: kind = 1; tensorOps::Ri_eq_symAijBj< 3 >( o, sy, v ); break;
      case RI_ADD: kind = 1; tensorOps::Ri_add_symAijBj< 3 >( v, sy, x ); break;
      case RIJ: tensorOps::Rij_eq_symAikBjk< 3 >( om, sy, a ); break;
      case AIKBKLAJL: kind = 3; tensorOps::Rij_eq_AikSymBklAjl< 3 >( w, g, sy ); break;
      case AIAJ: kind = 1; tensorOps::symRij_eq_AiAj< 3 >( os, v ); break;
      case AIBJ: kind = 1; tensorOps::symRij_eq_AiBj_plus_AjBi< 3 >( os, x, v ); break;
      case TOSYM: tensorOps::denseToSymmetric< 3 >( os, a ); break;
      case TODENSE: tensorOps::symmetricToDense< 3 >( a, sy ); break;
      case NOPS: kind = FP ? 4 : 0; if constexpr( FP ) tensorOps::invert< 2 >( a ); break;
      default: kind = 5; tensorOps::symDeterminant< 2 >( w );
    }
  } );
  bool const good = kind == 0 || ( kind == 1 && n == 3 ) || ( kind == 2 && m == 3 && n == 3 ) || ( kind == 3 && m + n == 6 ) || ( kind == 4 && m == 2 && n == 2 ) || ( kind == 5 && m + n == 3 );
  CHECK_EQ( e, !good, names[ op % NOPS ], " with ", m, "x", n );
  if( !good ) s.nontrivial();
}
static Registrar r5( TENSOR_NAME ".sizes", sizes< T >, 3000, "a size is wrong" );
#endif
