// C27: the tensor operations equal their defining formulas for every kind of operand and write only their destination.
// TENSOR_T, TENSOR_A, TENSOR_B: element types of the destination and the sources; TENSOR_NAME: name of the targets.
#include "tensor.hpp"
using namespace pbt;
using namespace lv;
using T = TENSOR_T;
using TA = TENSOR_A;
using TB = TENSOR_B;
static Real const EPS = coarsest< T, TA, TB >();
static constexpr bool floating = std::is_floating_point< T >::value && std::is_floating_point< TA >::value && std::is_floating_point< TB >::value;
static constexpr bool sameTypes = std::is_same< T, TA >::value && std::is_same< T, TB >::value;

/// Only the calls into the library depend on sizes and kinds of operands at compile time.
enum VecOp { MAXABS, FILL, COPY, SCALE, SCALEDCOPY, ADDSCALAR, ADD, SUBTRACT, SCALEDADD, HADAMARD, NORM, NORMALIZE, DOT, CROSS, SYMADD, SYMTRACE, NVEC };
template< int N > constexpr int symOf() { return N == 1 ? 1 : N == 3 ? 2 : N == 6 ? 3 : 0; }
struct VecArgs { Vec< T > & d; Vec< TA > & a; Vec< TB > & b; T f; TA fa; Real r1 = 0, r2 = 0; };
using VecCall = void ( * )( int, VecArgs & );
template< int N, int KD, int KA, int KB > void vecCall( int op, VecArgs & q )
{
  auto && x = dst< N, KD >( q.d ); auto && y = src< N, KA >( q.a ); auto && z = src< N, KB >( q.b );
  constexpr int M = symOf< N >();
  switch( op )
  {
    case MAXABS: q.r1 = tensorOps::maxAbsoluteEntry< N >( y ); break;
    case FILL: tensorOps::fill< N >( x, q.f ); break;
    case COPY: tensorOps::copy< N >( x, y ); break;
    case SCALE: tensorOps::scale< N >( x, q.f ); break;
    case SCALEDCOPY: tensorOps::scaledCopy< N >( x, y, q.fa ); break;
    case ADDSCALAR: tensorOps::addScalar< N >( x, q.f ); break;
    case ADD: tensorOps::add< N >( x, y ); break;
    case SUBTRACT: tensorOps::subtract< N >( x, y ); break;
    case SCALEDADD: tensorOps::scaledAdd< N >( x, y, q.fa ); break;
    case HADAMARD: tensorOps::hadamardProduct< N >( x, y, z ); break;
    case NORM: q.r1 = tensorOps::l2NormSquared< N >( y ); q.r2 = tensorOps::l2Norm< N >( y ); break;
    case NORMALIZE: if constexpr( std::is_floating_point< T >::value ) q.r1 = tensorOps::normalize< N >( x ); break;
    case DOT: q.r1 = tensorOps::AiBi< N >( y, z ); break;
    case CROSS: if constexpr( N == 3 ) tensorOps::crossProduct( x, y, z ); break;
    case SYMADD: if constexpr( M > 0 ) tensorOps::symAddIdentity< M >( x, q.f ); break;
    case SYMTRACE: if constexpr( M > 0 ) q.r1 = tensorOps::symTrace< M >( y ); break;
  }
}
enum MatOp { MFILL, MCOPY, MSCALE, MSCALEDCOPY, MADD, MSCALEDADD, TRANSPOSE, TRANSPOSEIN, ADDIDENTITY, TRACE, NMAT };
struct MatArgs { Mat< T > & d; Mat< TA > & a; Mat< TA > & t; T f; TA fa; Real r1 = 0; };
using MatCall = void ( * )( int, MatArgs & );
template< int M, int N, int KD, int KA, int KB > void matCall( int op, MatArgs & q )
{
  auto && x = dst< M, N, KD >( q.d ); auto && y = src< M, N, KA >( q.a ); auto && t = src< N, M, KB >( q.t );
  switch( op )
  {
    case MFILL: tensorOps::fill< M, N >( x, q.f ); break;
    case MCOPY: tensorOps::copy< M, N >( x, y ); break;
    case MSCALE: tensorOps::scale< M, N >( x, q.f ); break;
    case MSCALEDCOPY: tensorOps::scaledCopy< M, N >( x, y, q.fa ); break;
    case MADD: tensorOps::add< M, N >( x, y ); break;
    case MSCALEDADD: tensorOps::scaledAdd< M, N >( x, y, q.fa ); break;
    case TRANSPOSE: tensorOps::transpose< M, N >( x, t ); break;
    case TRANSPOSEIN: if constexpr( M == N ) tensorOps::transpose< M >( x ); break;
    case ADDIDENTITY: if constexpr( M == N ) tensorOps::addIdentity< M >( x, q.f ); break;
    case TRACE: if constexpr( M == N ) q.r1 = tensorOps::trace< M >( y ); break;
  }
}
struct MVArgs { Vec< T > & d; Mat< T > & m; Mat< TA > & a; Mat< TA > & at; Vec< TA > & u; Vec< TB > & b; };
using MVCall = void ( * )( int, MVArgs & );
template< int I, int J, int KD, int KA, int KB > void mvCall( int op, MVArgs & q )
{
  auto && d = dst< I, KD >( q.d ); auto && m = dst< I, J, KD >( q.m );
  auto && a = src< I, J, KA >( q.a ); auto && at = src< J, I, KA >( q.at ); auto && u = src< I, KA >( q.u ); auto && b = src< J, KB >( q.b );
  switch( op )
  {
    case 0: tensorOps::Rij_eq_AiBj< I, J >( m, u, b ); break;
    case 1: tensorOps::Rij_add_AiBj< I, J >( m, u, b ); break;
    case 2: tensorOps::Ri_eq_AijBj< I, J >( d, a, b ); break;
    case 3: tensorOps::Ri_add_AijBj< I, J >( d, a, b ); break;
    case 4: tensorOps::Ri_eq_AjiBj< I, J >( d, at, b ); break;
    default: tensorOps::Ri_add_AjiBj< I, J >( d, at, b );
  }
}
struct MMArgs { Mat< T > & d; Mat< T > & q; Mat< TA > & a; Mat< TA > & at; Mat< TB > & b; Mat< TB > & bt; };
using MMCall = void ( * )( int, MMArgs & );
template< int I, int J, int K, int KD, int KA, int KB > void mmCall( int op, MMArgs & g )
{
  auto && d = dst< I, J, KD >( g.d ); auto && q = dst< I, I, KD >( g.q );
  auto && a = src< I, K, KA >( g.a ); auto && at = src< K, I, KA >( g.at ); auto && b = src< K, J, KB >( g.b ); auto && bt = src< J, K, KB >( g.bt );
  switch( op )
  {
    case 0: tensorOps::Rij_eq_AikBkj< I, J, K >( d, a, b ); break;
    case 1: tensorOps::Rij_add_AikBkj< I, J, K >( d, a, b ); break;
    case 2: tensorOps::Rij_eq_AikBjk< I, J, K >( d, a, bt ); break;
    case 3: tensorOps::Rij_add_AikBjk< I, J, K >( d, a, bt ); break;
    case 4: tensorOps::Rij_add_AikAjk< I, K >( q, a ); break;
    case 5: tensorOps::Rij_eq_AkiBkj< I, J, K >( d, at, b ); break;
    case 6: tensorOps::Rij_add_AkiBkj< I, J, K >( d, at, b ); break;
    default: tensorOps::Rij_eq_AkiAkj< I, K >( q, at );
  }
}

struct Ctx { Src & s; bool exact; char const * what = ""; };
/// What an equation of the destination starts from: nothing of it may remain.
static void poison( Ctx & c, Operand< T > & d )
{
  if( std::is_floating_point< T >::value && c.s.boolean() ) { for( T * p : d.e ) *p = std::numeric_limits< T >::quiet_NaN(); }
  d.st.save();
}
template< typename F > void check( Ctx & c, Operand< T > & d, F && want )
{
  for( int i = 0; i < d.M; ++i ) for( int j = 0; j < d.N; ++j ) checkValue( *d.p( i, j ), want( i, j ), EPS, c.exact, c.what, i, j );
  d.st.checkUnchanged( d.elements(), c.what );
}
template< typename X > void same( Ctx & c, X & x ) { x.st.checkUnchanged( {}, c.what ); }
template< typename X > std::vector< Ex > old( Operand< X > & d ) { std::vector< Ex > r; for( X * p : d.e ) r.push_back( Ex( Real( *p ) ) ); return r; }

struct VecEntry { int n, kd, ka, kb; VecCall call; };
static void vectors( Ctx & c, VecEntry const & e )
{
  static char const * const names[] = { "maxAbsoluteEntry", "fill", "copy", "scale", "scaledCopy", "addScalar", "add", "subtract", "scaledAdd", "hadamardProduct", "l2Norm", "normalize", "AiBi", "crossProduct", "symAddIdentity", "symTrace" };
  int const N = e.n;
  Vec< T > d( c.s, c.exact, N, e.kd ); Vec< TA > a( c.s, c.exact, N, e.ka ); Vec< TB > b( c.s, c.exact, N, e.kb );
  std::vector< Ex > const o = old< T >( d );
  VecArgs q { d, a, b, operandValue< T >( c.s, c.exact ), operandValue< TA >( c.s, c.exact ) };
  int op = c.s.range( 0, NVEC - 1 );
  if( op == CROSS && N != 3 ) op = DOT;
  if( ( op == SYMADD || op == SYMTRACE ) && N != 1 && N != 3 && N != 6 ) op = SCALE;
  Real w2 = 0; for( Ex const & x : o ) w2 += x.v * x.v;
  if( op == NORMALIZE && ( !std::is_floating_point< T >::value || w2 == 0 ) ) op = ADD;
  int const M = N == 1 ? 1 : N == 3 ? 2 : 3;
  c.what = names[ op ];
  LOG( c.s, c.what << " of " << N << " kinds " << e.kd << e.ka << e.kb << " scales " << q.f << " " << q.fa );
  if( op == FILL || op == COPY || op == SCALEDCOPY || op == HADAMARD || op == CROSS ) poison( c, d );
  e.call( op, q );
  auto A = [&]( int i ) { return Ex( a.get( i ) ); };
  auto B = [&]( int i ) { return Ex( b.get( i ) ); };
  Ex const f( q.f ), fa( q.fa );
  Ex sum;
  switch( op )
  {
    case MAXABS: { Real w = 0; for( int i = 0; i < N; ++i ) w = std::max( w, std::fabs( a.get( i ) ) ); CHECK_EQ( q.r1, w, c.what ); break; }
    case FILL: check( c, d, [&]( int, int ) { return f; } ); break;
    case COPY: check( c, d, [&]( int i, int ) { return A( i ); } ); break;
    case SCALE: check( c, d, [&]( int i, int ) { return o[ i ] * f; } ); break;
    case SCALEDCOPY: check( c, d, [&]( int i, int ) { return A( i ) * fa; } ); break;
    case ADDSCALAR: check( c, d, [&]( int i, int ) { return o[ i ] + f; } ); break;
    case ADD: check( c, d, [&]( int i, int ) { return o[ i ] + A( i ); } ); break;
    case SUBTRACT: check( c, d, [&]( int i, int ) { return o[ i ] - A( i ); } ); break;
    case SCALEDADD: check( c, d, [&]( int i, int ) { return o[ i ] + fa * A( i ); } ); break;
    case HADAMARD: check( c, d, [&]( int i, int ) { return A( i ) * B( i ); } ); break;
    case NORM:
    {
      Real w = 0; for( int i = 0; i < N; ++i ) w += a.get( i ) * a.get( i );
      Real const eps = std::max( EPS, Real( std::numeric_limits< double >::epsilon() ) );
      if( c.exact ) CHECK_EQ( q.r1, w, "l2NormSquared" ); else CHECK( std::fabs( q.r1 - w ) <= 16 * EPS * w, "l2NormSquared ", q.r1, " expected ", w );
      CHECK( std::fabs( q.r2 - std::sqrt( w ) ) <= 16 * eps * std::sqrt( w ), "l2Norm ", q.r2, " expected ", std::sqrt( w ) );
      break;
    }
    case NORMALIZE:
    {
      Real const w = std::sqrt( w2 ), eps = std::max( EPS, Real( std::numeric_limits< T >::epsilon() ) );
      CHECK( std::fabs( q.r1 - w ) <= 16 * eps * w, "normalize returns ", q.r1, " expected ", w );
      for( int i = 0; i < N; ++i ) CHECK( std::fabs( d.get( i ) - o[ i ].v / w ) <= 16 * eps, "normalize ", i, " ", d.get( i ), " expected ", o[ i ].v / w );
      d.st.checkUnchanged( d.elements(), c.what );
      break;
    }
    case DOT: for( int i = 0; i < N; ++i ) sum = sum + A( i ) * B( i ); checkValue( q.r1, sum, EPS, c.exact, c.what, 0, 0 ); break;
    case CROSS: check( c, d, [&]( int i, int ) { int const j = ( i + 1 ) % 3, k = ( i + 2 ) % 3; return A( j ) * B( k ) - A( k ) * B( j ); } ); break;
    case SYMADD: check( c, d, [&]( int i, int ) { return i < M ? o[ i ] + f : o[ i ]; } ); break;
    case SYMTRACE: for( int i = 0; i < M; ++i ) sum = sum + A( i ); checkValue( q.r1, sum, EPS, c.exact, c.what, 0, 0 ); break;
  }
  if( op == MAXABS || op == NORM || op == DOT || op == SYMTRACE ) same( c, d );
  same( c, a ); same( c, b );
}
struct MatEntry { int m, n, kd, ka, kb; MatCall call; };
static void elementwise( Ctx & c, MatEntry const & e )
{
  static char const * const names[] = { "matrix fill", "matrix copy", "matrix scale", "matrix scaledCopy", "matrix add", "matrix scaledAdd", "transpose", "transpose in place", "addIdentity", "trace" };
  int const M = e.m, N = e.n;
  Mat< T > d( c.s, c.exact, M, N, e.kd ); Mat< TA > a( c.s, c.exact, M, N, e.ka ); Mat< TA > t( c.s, c.exact, N, M, e.kb );
  std::vector< Ex > const ov = old< T >( d );
  auto o = [&]( int i, int j ) { return ov[ i * N + j ]; };
  MatArgs q { d, a, t, operandValue< T >( c.s, c.exact ), operandValue< TA >( c.s, c.exact ) };
  int const op = c.s.range( 0, M == N ? NMAT - 1 : int( TRANSPOSE ) );
  c.what = names[ op ];
  LOG( c.s, c.what << " " << M << "x" << N << " kinds " << e.kd << e.ka << e.kb << " scales " << q.f << " " << q.fa );
  if( op == MFILL || op == MCOPY || op == MSCALEDCOPY || op == TRANSPOSE ) poison( c, d );
  e.call( op, q );
  auto A = [&]( int i, int j ) { return Ex( a.get( i, j ) ); };
  Ex const f( q.f ), fa( q.fa );
  Ex sum;
  switch( op )
  {
    case MFILL: check( c, d, [&]( int, int ) { return f; } ); break;
    case MCOPY: check( c, d, A ); break;
    case MSCALE: check( c, d, [&]( int i, int j ) { return o( i, j ) * f; } ); break;
    case MSCALEDCOPY: check( c, d, [&]( int i, int j ) { return A( i, j ) * fa; } ); break;
    case MADD: check( c, d, [&]( int i, int j ) { return o( i, j ) + A( i, j ); } ); break;
    case MSCALEDADD: check( c, d, [&]( int i, int j ) { return o( i, j ) + fa * A( i, j ); } ); break;
    case TRANSPOSE: check( c, d, [&]( int i, int j ) { return Ex( t.get( j, i ) ); } ); break;
    case TRANSPOSEIN: check( c, d, [&]( int i, int j ) { return o( j, i ); } ); break;
    case ADDIDENTITY: check( c, d, [&]( int i, int j ) { return i == j ? o( i, j ) + f : o( i, j ); } ); break;
    default: for( int i = 0; i < M; ++i ) sum = sum + A( i, i ); checkValue( q.r1, sum, EPS, c.exact, c.what, 0, 0 ); same( c, d );
  }
  same( c, a ); same( c, t );
}
struct MVEntry { int i, j, kd, ka, kb; MVCall call; };
static void matrixVector( Ctx & c, MVEntry const & e )
{
  static char const * const names[] = { "Rij_eq_AiBj", "Rij_add_AiBj", "Ri_eq_AijBj", "Ri_add_AijBj", "Ri_eq_AjiBj", "Ri_add_AjiBj" };
  int const I = e.i, J = e.j;
  Vec< T > d( c.s, c.exact, I, e.kd ); Mat< T > m( c.s, c.exact, I, J, e.kd );
  Mat< TA > a( c.s, c.exact, I, J, e.ka ), at( c.s, c.exact, J, I, e.ka );
  Vec< TA > u( c.s, c.exact, I, e.ka ); Vec< TB > b( c.s, c.exact, J, e.kb );
  std::vector< Ex > const o = old< T >( d ), om = old< T >( m );
  int const op = c.s.range( 0, 5 );
  c.what = names[ op ];
  LOG( c.s, c.what << " " << I << "x" << J << " kinds " << e.kd << e.ka << e.kb );
  bool const mat = op < 2, eq = op % 2 == 0;
  if( eq ) { if( mat ) poison( c, m ); else poison( c, d ); }
  MVArgs q { d, m, a, at, u, b };
  e.call( op, q );
  if( mat ) check( c, m, [&]( int i, int j ) { return ( eq ? Ex() : om[ i * J + j ] ) + Ex( u.get( i ) ) * Ex( b.get( j ) ); } );
  else check( c, d, [&]( int i, int )
  {
    Ex w = eq ? Ex() : o[ i ];
    for( int j = 0; j < J; ++j ) w = w + Ex( op < 4 ? a.get( i, j ) : at.get( j, i ) ) * Ex( b.get( j ) );
    return w;
  } );
  if( mat ) same( c, d ); else same( c, m );
  same( c, a ); same( c, at ); same( c, u ); same( c, b );
}
struct MMEntry { int i, j, k, kd, ka, kb; MMCall call; };
static void matrixMatrix( Ctx & c, MMEntry const & e )
{
  static char const * const names[] = { "Rij_eq_AikBkj", "Rij_add_AikBkj", "Rij_eq_AikBjk", "Rij_add_AikBjk", "Rij_add_AikAjk", "Rij_eq_AkiBkj", "Rij_add_AkiBkj", "Rij_eq_AkiAkj" };
  int const I = e.i, J = e.j, K = e.k;
  Mat< T > d( c.s, c.exact, I, J, e.kd ), sq( c.s, c.exact, I, I, e.kd );
  Mat< TA > a( c.s, c.exact, I, K, e.ka ), at( c.s, c.exact, K, I, e.ka );
  Mat< TB > b( c.s, c.exact, K, J, e.kb ), bt( c.s, c.exact, J, K, e.kb );
  std::vector< Ex > const o = old< T >( d ), oq = old< T >( sq );
  int const op = c.s.range( 0, 7 );
  c.what = names[ op ];
  LOG( c.s, c.what << " " << I << "x" << J << "x" << K << " kinds " << e.kd << e.ka << e.kb );
  bool const square = op == 4 || op == 7, eq = op == 0 || op == 2 || op == 5 || op == 7;
  if( eq ) { if( square ) poison( c, sq ); else poison( c, d ); }
  MMArgs q { d, sq, a, at, b, bt };
  e.call( op, q );
  check( c, square ? static_cast< Operand< T > & >( sq ) : d, [&]( int i, int j )
  {
    Ex w = eq ? Ex() : square ? oq[ i * I + j ] : o[ i * J + j ];
    for( int k = 0; k < K; ++k )
    {
      Real const l = op < 5 ? a.get( i, k ) : at.get( k, i );
      Real const r = op == 4 ? a.get( j, k ) : op == 7 ? at.get( k, j ) : op == 2 || op == 3 ? bt.get( j, k ) : b.get( k, j );
      w = w + Ex( l ) * Ex( r );
    }
    return w;
  } );
  if( square ) same( c, d ); else same( c, sq );
  same( c, a ); same( c, at ); same( c, b ); same( c, bt );
}

/// Every kind of operand with every other in some size.
#define KIND( F, A, B, C, ... ) { __VA_ARGS__, A, B, C, F< __VA_ARGS__, A, B, C > }
#define KINDS( F, S, ... ) \
  KIND( F, 0, ( S ) % 6, ( S ) % 6, __VA_ARGS__ ), KIND( F, 1, ( S + 1 ) % 6, ( S + 5 ) % 6, __VA_ARGS__ ), KIND( F, 2, ( S + 2 ) % 6, ( S + 4 ) % 6, __VA_ARGS__ ), \
  KIND( F, 3, ( S + 3 ) % 6, ( S + 3 ) % 6, __VA_ARGS__ ), KIND( F, 4, ( S + 4 ) % 6, ( S + 2 ) % 6, __VA_ARGS__ ), KIND( F, 5, ( S + 5 ) % 6, ( S + 1 ) % 6, __VA_ARGS__ )

template< typename E, std::size_t N, typename F > void run( Src & s, E const (&table)[ N ], F && f )
{
  Ctx c { s, true };
  std::size_t n = 0;
  while( s.more( n, 12, 5 ) )
  {
    Span sp( s ); ++n;
    c.exact = !floating || !sameTypes || s.boolean();
    f( c, table[ s.choose( N - 1 ) ] );
    s.label( c.what );
  }
  if( n > 1 ) s.nontrivial();
}
static VecEntry const vecTable[] = { KINDS( vecCall, 0, 1 ), KINDS( vecCall, 1, 2 ), KINDS( vecCall, 2, 3 ), KINDS( vecCall, 3, 3 ), KINDS( vecCall, 4, 4 ), KINDS( vecCall, 5, 6 ), KINDS( vecCall, 0, 3 ), KINDS( vecCall, 1, 6 ), KINDS( vecCall, 2, 9 ) };
static MatEntry const elementTable[] = { KINDS( matCall, 0, 1, 1 ), KINDS( matCall, 1, 2, 2 ), KINDS( matCall, 2, 3, 3 ), KINDS( matCall, 3, 2, 3 ), KINDS( matCall, 4, 4, 3 ), KINDS( matCall, 5, 3, 3 ), KINDS( matCall, 0, 5, 5 ), KINDS( matCall, 1, 1, 4 ) };
static MVEntry const mvTable[] = { KINDS( mvCall, 0, 1, 1 ), KINDS( mvCall, 1, 2, 2 ), KINDS( mvCall, 2, 3, 3 ), KINDS( mvCall, 3, 2, 3 ), KINDS( mvCall, 4, 3, 2 ), KINDS( mvCall, 5, 4, 5 ), KINDS( mvCall, 0, 6, 1 ) };
static MMEntry const mmTable[] = { KINDS( mmCall, 0, 1, 1, 1 ), KINDS( mmCall, 1, 2, 2, 2 ), KINDS( mmCall, 2, 3, 3, 3 ), KINDS( mmCall, 3, 2, 3, 4 ), KINDS( mmCall, 4, 3, 2, 1 ), KINDS( mmCall, 5, 1, 3, 2 ), KINDS( mmCall, 0, 4, 2, 3 ) };
static char const * const rule = "at least two operations";
static Registrar r1( TENSOR_NAME ".vector", []( Src & s ) { run( s, vecTable, vectors ); }, 30000, rule );
static Registrar r2( TENSOR_NAME ".elementwise", []( Src & s ) { run( s, elementTable, elementwise ); }, 20000, rule );
static Registrar r3( TENSOR_NAME ".matvec", []( Src & s ) { run( s, mvTable, matrixVector ); }, 15000, rule );
static Registrar r4( TENSOR_NAME ".matmat", []( Src & s ) { run( s, mmTable, matrixMatrix ); }, 15000, rule );

#if defined( LVARRAY_BOUNDS_CHECK )
/// Arrays of the wrong size are reported.
static void sizes( Src & s )
{
  int const m = s.range( 1, 5 ), n = s.range( 1, 5 ), k = s.range( 0, 8 );
  LvArray::Array< T, 2, RAJA::PERM_IJ, int, LvArray::MallocBuffer > a( m, n ), b( 3, 3 );
  LvArray::Array< T, 2, RAJA::PERM_JI, int, LvArray::MallocBuffer > p( m, n );
  LvArray::Array< T, 1, RAJA::PERM_I, int, LvArray::MallocBuffer > v( n );
  for( T & x : a ) x = T( 1 );
  for( T & x : p ) x = T( 1 );
  for( T & x : b ) x = T( 1 );
  for( T & x : v ) x = T( 1 );
  T c[ 3 ] = { 1, 1, 1 }, d[ 3 ] = {}, cc[ 3 ][ 3 ] = {};
  bool const vec = k == 0 || k == 2 || k == 4 || k == 6 || k == 8;
  bool const good = vec ? n == 3 : ( m == 3 && n == 3 );
  LOG( s, m << "x" << n << " case " << k );
  bool const e = reportsError( [&]()
  {
    switch( k )
    {
      case 0: tensorOps::fill< 3 >( v, T( 1 ) ); break;
      case 1: tensorOps::copy< 3, 3 >( cc, a ); break;
      case 2: tensorOps::add< 3 >( d, a[ 0 ] ); break;
      case 3: tensorOps::Ri_eq_AijBj< 3, 3 >( d, p, c ); break;
      case 4: tensorOps::AiBi< 3 >( c, p[ 0 ] ); break;
      case 5: tensorOps::Rij_eq_AikBkj< 3, 3, 3 >( cc, b, a.toSliceConst() ); break;
      case 6: tensorOps::crossProduct( d, c, v.toView() ); break;
      case 7: tensorOps::trace< 3 >( p.toView() ); break;
      default: tensorOps::scaledCopy< 3 >( d, v.toSliceConst(), T( 2 ) );
    }
  } );
  CHECK_EQ( e, !good, "size ", m, "x", n, " where 3 are expected, case ", k );
  if( !good ) s.nontrivial();
}
static Registrar r5( TENSOR_NAME ".sizes", sizes, 2000, "a size is wrong" );
#endif
