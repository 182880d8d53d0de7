// C29: eigenvalues and eigenvectors of symmetric 2x2 and 3x3 matrices against a Jacobi iteration in long double.
#include "tensor.hpp"
using namespace pbt;
using namespace lv;
using T = TENSOR_T;   // of the results
using TA = TENSOR_A;  // of the matrix
static Real const EPS = std::numeric_limits< T >::epsilon();
static constexpr bool INT = std::is_integral< TA >::value;
using Dense = std::array< std::array< Real, 3 >, 3 >;
static int voigt( int M, int i, int j ) { return i == j ? i : M == 2 ? 2 : 6 - i - j; }

/// Eigenvalues in ascending order by cyclic Jacobi rotations, of a matrix scaled to entries of at most one.
static std::array< Real, 3 > jacobi( Dense a, int const M )
{
  Real scale = 0; for( auto & r : a ) for( Real x : r ) scale = std::max( scale, std::fabs( x ) );
  if( scale > 0 ) for( auto & r : a ) for( Real & x : r ) x /= scale;
  for( int sweep = 0; sweep < 80; ++sweep )
  {
    Real off = 0; for( int i = 0; i < M; ++i ) for( int j = 0; j < i; ++j ) off += std::fabs( a[ i ][ j ] );
    if( off == 0 ) break;
    for( int p = 0; p < M; ++p )
      for( int q = p + 1; q < M; ++q )
      {
        Real const apq = a[ p ][ q ];
        if( apq == 0 ) continue;
        Real const theta = ( a[ q ][ q ] - a[ p ][ p ] ) / ( 2 * apq );
        Real const t = std::isinf( theta ) ? 0 : ( theta >= 0 ? 1 : -1 ) / ( std::fabs( theta ) + std::hypot( theta, Real( 1 ) ) );
        Real const c = 1 / std::sqrt( t * t + 1 ), sn = t * c;
        Dense o = a;
        for( int k = 0; k < M; ++k ) { a[ p ][ k ] = c * o[ p ][ k ] - sn * o[ q ][ k ]; a[ q ][ k ] = sn * o[ p ][ k ] + c * o[ q ][ k ]; }
        o = a;
        for( int k = 0; k < M; ++k ) { a[ k ][ p ] = c * o[ k ][ p ] - sn * o[ k ][ q ]; a[ k ][ q ] = sn * o[ k ][ p ] + c * o[ k ][ q ]; }
        a[ p ][ q ] = a[ q ][ p ] = 0;
      }
  }
  std::array< Real, 3 > r {};
  for( int i = 0; i < M; ++i ) r[ i ] = a[ i ][ i ] * scale;
  std::sort( r.begin(), r.begin() + M );
  return r;
}
/// In [-1, 1].
static Real unit( Src & s ) { std::uint64_t const v = s.choose( ( 1ull << 54 ) - 1 ); Real const x = Real( v >> 1 ) / Real( 1ull << 53 ); return v & 1 ? -x : x; }
/// Entries of a symmetric matrix of one of many families.
static std::vector< Real > generate( Src & s, int const M )
{
  int const S = M * ( M + 1 ) / 2;
  std::vector< Real > m( S, 0 );
  int const maxExp = std::numeric_limits< T >::digits + 8;
  auto tiny = [&]() { return std::ldexp( unit( s ), -s.range( 0, maxExp ) ); };
  auto smallInt = [&]() { return Real( s.range( 0, 6 ) - 3 ); };
  auto fromEigen = [&]( Real e0, Real e1, Real e2 )
  {
    Dense r {};
    if( M == 2 )
    {
      Real const a = unit( s ) * ( s.boolean() ? 4 : 0 ) * ( s.boolean( 0.2 ) ? 1e-8L : 1 );
      r[ 0 ][ 0 ] = r[ 1 ][ 1 ] = std::cos( a ); r[ 0 ][ 1 ] = std::sin( a ); r[ 1 ][ 0 ] = -r[ 0 ][ 1 ];
    }
    else
    {
      Real q[ 4 ], n = 0;
      for( Real & x : q ) { x = unit( s ); int const k = s.range( 0, 7 ); if( k < 2 ) x = 0; if( k == 2 ) x *= 1e-8L; if( k == 3 ) x = smallInt(); n += x * x; }
      if( n == 0 ) q[ 0 ] = n = 1;
      for( Real & x : q ) x /= std::sqrt( n );
      Real const w = q[ 0 ], x = q[ 1 ], y = q[ 2 ], z = q[ 3 ];
      r = { { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - z * w ), 2 * ( x * z + y * w ) }, { 2 * ( x * y + z * w ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - x * w ) }, { 2 * ( x * z - y * w ), 2 * ( y * z + x * w ), 1 - 2 * ( x * x + y * y ) } } };
    }
    Real const e[ 3 ] = { e0, e1, e2 };
    for( int i = 0; i < M; ++i ) for( int j = 0; j <= i; ++j ) { Real t = 0; for( int k = 0; k < M; ++k ) t += r[ k ][ i ] * e[ k ] * r[ k ][ j ]; m[ voigt( M, i, j ) ] = t; }
  };
  auto ulps = [&]( Real x ) { int k = s.range( 0, 8 ) - 4; T y = T( x ); if( std::isfinite( y ) ) for( ; k; k += k > 0 ? -1 : 1 ) y = std::nextafter( y, k > 0 ? std::numeric_limits< T >::infinity() : -std::numeric_limits< T >::infinity() ); return Real( y ); };
  int const family = s.range( 0, 12 );
  switch( family )
  {
    case 0: s.label( "zero or one entry" ); m[ s.choose( S - 1 ) ] = s.boolean() ? smallInt() : tiny(); break;
    case 1: s.label( "small integers" ); for( Real & x : m ) x = smallInt(); break;
    case 2: s.label( "random" ); for( Real & x : m ) x = unit( s ); break;
    case 3: s.label( "entries of different scales" ); for( Real & x : m ) x = tiny(); break;
    case 4: s.label( "diagonal" ); for( int i = 0; i < M; ++i ) m[ i ] = s.boolean() ? unit( s ) : smallInt(); break;
    case 5: { s.label( "nearly degenerate" ); Real const a = unit( s ); fromEigen( a, a + tiny(), unit( s ) ); break; }
    case 6: { s.label( "triple, nearly" ); Real const a = unit( s ); fromEigen( a, s.boolean() ? a : a + tiny(), a + tiny() ); break; }
    case 7: s.label( "rank one or two" ); fromEigen( s.boolean() ? 0 : unit( s ), 0, unit( s ) ); break;
    case 8: s.label( "double" ); { Real const a = smallInt(), b = smallInt(); fromEigen( a, a, b ); } break;
    case 9: { s.label( "rank one plus identity" ); Real v[ 3 ]; for( Real & x : v ) x = s.boolean() ? unit( s ) : smallInt(); Real const d = s.boolean() ? 0 : unit( s ); for( int i = 0; i < M; ++i ) for( int j = 0; j <= i; ++j ) m[ voigt( M, i, j ) ] = v[ i ] * v[ j ] + ( i == j ? d : 0 ); break; }
    case 10: { s.label( "equal diagonal" ); Real const d = unit( s ); for( int i = 0; i < M; ++i ) m[ i ] = s.boolean( 0.3 ) ? ulps( d ) : d; for( int i = M; i < S; ++i ) m[ i ] = s.boolean() ? 0 : std::ldexp( tiny(), -s.range( 0, 60 ) ); break; }
    case 11: { s.label( "equal entries" ); Real const d = unit( s ), o = s.boolean() ? tiny() : d; for( int i = 0; i < M; ++i ) m[ i ] = d; for( int i = M; i < S; ++i ) m[ i ] = s.range( 0, 3 ) ? o : -o; break; }
    case 12: { s.label( "any" ); for( Real & x : m ) x = s.real( false ); break; }
  }
  if( s.boolean( 0.3 ) ) { s.label( "a few ulps away" ); for( Real & x : m ) if( s.boolean( 0.4 ) ) x = ulps( x ); }
  int const lo = std::numeric_limits< T >::min_exponent - std::numeric_limits< T >::digits, hi = std::numeric_limits< T >::max_exponent - 5;
  if( family != 12 )
  {
    int const k = s.range( 0, 9 );
    int const e = k < 5 ? 0 : k == 5 ? s.range( 0, 12 ) - 6 : k == 6 ? lo + s.range( 0, std::numeric_limits< T >::digits + 4 ) : k == 7 ? hi - s.range( 0, 8 ) : s.range( lo, hi );
    if( e ) { s.label( e < lo + std::numeric_limits< T >::digits + 4 ? "scaled to denormals" : e > hi - 10 ? "scaled near overflow" : "scaled" ); for( Real & x : m ) x = std::ldexp( x, e ); }
  }
  // Entries from which nothing can overflow.
  Real const limit = std::min( std::ldexp( Real( 1 ), hi + 2 ), INT ? Real( 1e30L ) : Real( std::numeric_limits< TA >::max() ) );
  for( Real & x : m ) if( !( std::fabs( x ) <= limit ) ) x = x > 0 ? limit : -limit;
  if( INT ) for( Real & x : m ) x = std::fabs( x ) < 1e6L ? std::round( s.boolean() ? x : x * 1000 ) : 7;
  return m;
}

struct Args { Vec< T > & ev, & ev2; Mat< T > & vec; Vec< TA > & a; };
using Call = void ( * )( Args & );
template< int M, int KD, int KV, int KA > void callEigen( Args & q )
{
  constexpr int S = M * ( M + 1 ) / 2;
  tensorOps::symEigenvectors< M >( dst< M, KD >( q.ev ), dst< M, M, KV >( q.vec ), src< S, KA >( q.a ) );
  tensorOps::symEigenvalues< M >( dst< M, KD >( q.ev2 ), src< S, KA >( q.a ) );
}
struct Entry { int m, kd, kv, ka; Call call; };
#define KIND( M, A, B, C ) { M, A, B, C, callEigen< M, A, B, C > }
static Entry const table2[] = { KIND( 2, 0, 0, 0 ), KIND( 2, 1, 2, 3 ), KIND( 2, 2, 3, 1 ), KIND( 2, 3, 4, 5 ), KIND( 2, 4, 5, 2 ), KIND( 2, 5, 1, 4 ) };
static Entry const table3[] = { KIND( 3, 0, 0, 0 ), KIND( 3, 1, 2, 3 ), KIND( 3, 2, 3, 1 ), KIND( 3, 3, 4, 5 ), KIND( 3, 4, 5, 2 ), KIND( 3, 5, 1, 4 ) };

static bool one( Src & s, Entry const & e )
{
  int const M = e.m, S = M * ( M + 1 ) / 2;
  Vec< T > ev( s, true, M, e.kd ), ev2( s, true, M, e.kd ); Mat< T > vec( s, true, M, M, e.kv ); Vec< TA > am( s, true, S, e.ka );
  std::vector< Real > const m = generate( s, M );
  for( int i = 0; i < S; ++i ) *am.p( i ) = TA( m[ i ] );
  am.st.save();
  Dense a {};
  for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) a[ i ][ j ] = Real( T( am.get( voigt( M, i, j ) ) ) );
  std::string text; { std::ostringstream o; o.precision( 20 ); for( int i = 0; i < S; ++i ) o << ( i ? " " : "" ) << am.get( i ); text = o.str(); }
  LOG( s, M << "x" << M << " kinds " << e.kd << e.kv << e.ka << " of " << text );
  auto poison = [&]( Operand< T > & o ) { for( T * p : o.e ) *p = std::numeric_limits< T >::quiet_NaN(); o.st.save(); };
  if( s.boolean() ) { poison( ev ); poison( ev2 ); poison( vec ); }
  Args q { ev, ev2, vec, am };
  e.call( q );
  ev.st.checkUnchanged( ev.elements(), "eigenvalues" ); ev2.st.checkUnchanged( ev2.elements(), "eigenvalues" ); vec.st.checkUnchanged( vec.elements(), "eigenvectors" ); am.st.checkUnchanged( {}, "the matrix" );

  auto const want = jacobi( a, M );
  Real const norm = std::max( std::fabs( want[ 0 ] ), std::fabs( want[ M - 1 ] ) ), spread = want[ M - 1 ] - want[ 0 ];
  Real gap = spread; for( int i = 1; i < M; ++i ) gap = std::min( gap, want[ i ] - want[ i - 1 ] );
  Real const rel = spread > 0 ? ( gap - 8 * EPS * norm ) / spread : 0;
  // The closed form loses accuracy with the distance of the two closest eigenvalues, up to half of the digits. That is the
  // distance in the shifted matrix, whose rounding may have brought the eigenvalues together.
  Real const loss = M == 2 ? 1 : std::max( rel, std::sqrt( EPS ) );
  Real const small = 4 * Real( std::numeric_limits< T >::denorm_min() );
  Real const tolV = 24 * EPS / loss * norm + small, tolO = M == 2 ? 24 * EPS : 16 * EPS / loss;
  for( int i = 0; i < M; ++i )
  {
    Real const x = ev.get( i ), y = ev2.get( i );
    CHECK( std::fabs( x - want[ i ] ) <= tolV, "symEigenvectors of ", text, ": eigenvalue ", i, " is ", x, " expected ", want[ i ], " +- ", tolV );
    CHECK( std::fabs( y - want[ i ] ) <= tolV, "symEigenvalues of ", text, ": eigenvalue ", i, " is ", y, " expected ", want[ i ], " +- ", tolV );
    if( i )
    {
      CHECK( ev.get( i - 1 ) <= x, "symEigenvectors of ", text, ": not ascending ", ev.get( i - 1 ), " ", x );
      CHECK( ev2.get( i - 1 ) <= y, "symEigenvalues of ", text, ": not ascending ", ev2.get( i - 1 ), " ", y );
    }
    for( int j = 0; j <= i; ++j )
    {
      Real d = 0; for( int k = 0; k < M; ++k ) d += vec.get( i, k ) * vec.get( j, k );
      CHECK( std::fabs( d - ( i == j ) ) <= tolO, "symEigenvectors of ", text, ": product of the vectors ", i, " and ", j, " is ", d, " off by more than ", tolO );
    }
    for( int j = 0; j < M; ++j )
    {
      Real t = 0; for( int k = 0; k < M; ++k ) t += a[ j ][ k ] * vec.get( i, k );
      CHECK( std::fabs( t - x * vec.get( i, j ) ) <= 2 * tolV, "symEigenvectors of ", text, ": A v - lambda v of vector ", i, " has an entry ", t - x * vec.get( i, j ), " above ", 2 * tolV );
    }
  }
  return norm > 0;
}
template< std::size_t N > void run( Src & s, Entry const (&table)[ N ] )
{
  std::size_t n = 0; int nonzero = 0;
  while( s.more( n, 8, 4 ) ) { Span sp( s ); ++n; nonzero += one( s, table[ s.choose( N - 1 ) ] ); }
  if( nonzero ) s.nontrivial();
}
static char const * const rule = "a matrix that is not zero";
static Registrar r1( TENSOR_NAME ".eigen2", []( Src & s ) { run( s, table2 ); }, 25000, rule );
static Registrar r2( TENSOR_NAME ".eigen3", []( Src & s ) { run( s, table3 ); }, 40000, rule );

#if defined( LVARRAY_BOUNDS_CHECK )
/// Arrays of the wrong size are reported.
static void sizes( Src & s )
{
  int const n = s.range( 1, 4 ), r = s.range( 1, 4 ), c = s.range( 1, 4 ), m = s.range( 1, 8 ), op = s.range( 0, 3 );
  LvArray::Array< T, 1, RAJA::PERM_I, int, LvArray::MallocBuffer > ev( n ); LvArray::Array< T, 2, RAJA::PERM_IJ, int, LvArray::MallocBuffer > vec( r, c );
  LvArray::Array< TA, 1, RAJA::PERM_I, int, LvArray::MallocBuffer > a( m );
  LOG( s, "op " << op << " values " << n << " vectors " << r << "x" << c << " matrix " << m );
  bool const e = reportsError( [&]()
  {
    switch( op )
    {
      case 0: tensorOps::symEigenvalues< 2 >( ev, a ); break;
      case 1: tensorOps::symEigenvectors< 2 >( ev, vec, a ); break;
      case 2: tensorOps::symEigenvalues< 3 >( ev, a ); break;
      default: tensorOps::symEigenvectors< 3 >( ev, vec, a ); break;
    }
  } );
  int const M = 2 + op / 2;
  bool const good = n == M && m == M * ( M + 1 ) / 2 && ( op % 2 == 0 || ( r == M && c == M ) );
  CHECK_EQ( e, !good, "op ", op, " values ", n, " vectors ", r, "x", c, " matrix ", m );
  if( good ) s.label( "the right sizes" ); else s.nontrivial();
}
static Registrar r3( TENSOR_NAME ".sizes", sizes, 4000, "a size is wrong" );
#endif
