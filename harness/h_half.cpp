// C35: the half precision overloads, on software half precision numbers.
#include "math.hpp"
#include "limits.hpp"
#include "pbt.hpp"
#include <sstream>
#include <iomanip>
#include "output.hpp"
using namespace pbt;
namespace m = LvArray::math;

namespace
{
double d( __half const x ) { return static_cast< double >( float( x ) ); }
bool nan( __half const x ) { return std::isnan( float( x ) ); }
unsigned bits( __half const x ) { return __half_as_ushort( x ); }
__half fromBits( std::uint64_t const x ) { return __ushort_as_half( static_cast< unsigned short >( x ) ); }
std::string show( __half const x ) { return pbt::cat( std::setprecision( 9 ), float( x ) ); }

__half value( Src & s )
{
  switch( s.weighted( { 6, 3, 2, 2, 1 } ) )
  {
    case 0: return fromBits( s.choose( 65535 ) );                                              // anything
    case 1: return fromBits( s.choose( 0x3c00 ) | ( s.boolean() ? 0x8000 : 0 ) );              // [-1, 1]
    case 2: return __half( s.range( -40, 40 ) );
    case 3: return fromBits( ( 0x7bff - s.choose( 0x800 ) ) | ( s.boolean() ? 0x8000 : 0 ) );  // near the largest
    default: { static unsigned const special[] = { 0, 0x8000, 0x7c00, 0xfc00, 0x7e00, 0x7bff, 0xfbff, 1, 0x8001, 0x400, 0x8400, 0x3c00, 0xbc00, 0x3bff, 0x3c01 }; return fromBits( special[ s.choose( 14 ) ] ); }
  }
}
/// Equal as numbers, a NaN for a NaN.
bool same( __half const a, __half const b ) { return nan( a ) ? nan( b ) : a == b; }

/// The spacing of halves at x.
double ulp( double const x )
{
  double const a = std::abs( x );
  if( !( a >= 1.0 / 16384 ) ) return 1.0 / 16777216;
  return std::isinf( a ) ? 0 : std::ldexp( 1.0, std::ilogb( a ) - 10 );
}
/// got is the exact value want, up to tol and an overflow of the result.
bool near( __half const got, double const want, double const tol )
{
  if( std::isnan( want ) ) return nan( got );
  if( nan( got ) ) return false;
  if( std::abs( want ) + tol >= 65520 && std::isinf( float( got ) ) ) return ( d( got ) > 0 ) == ( want > 0 );
  if( std::isinf( want ) ) return d( got ) == want;
  return std::abs( d( got ) - want ) <= tol;
}

constexpr double EPS = 1.0 / 1024;

/// Functions of one number: the function of a number, of a pair, and how far from the exact value they may be.
struct Unary
{
  char const * name;
  __half ( * one )( __half );
  __half2 ( * two )( __half2 );
  bool ( * ok )( double x, __half got );
};
bool okTan( double const x, __half const got )
{
  double const s = std::sin( x ), c = std::cos( x ), t = s / c;
  if( !std::isfinite( x ) ) return nan( got );
  return near( got, t, std::abs( t ) * ( 1.5 * ulp( s ) / std::max( std::abs( s ), 1e-30 ) + 1.5 * ulp( c ) / std::abs( c ) ) + 1.5 * ulp( t ) );
}
bool okAsin( double const x, __half const got )
{
  double const w = std::asin( x );
  return std::isnan( w ) ? nan( got ) : near( got, w, std::min( 1.5 * EPS, 8 * EPS * std::abs( w ) ) );
}
bool okAcos( double const x, __half const got )
{
  double const w = std::acos( x );
  return std::isnan( w ) ? nan( got ) : near( got, w, std::min( 3 * EPS, 1.5 * EPS * w ) );
}
#define ROUNDED( expr ) []( double const x, __half const got ) { double const w = ( expr ); return near( got, w, 1.5 * ulp( w ) ); }
Unary const unaries[] =
{
  { "abs", []( __half x ) { return m::abs( x ); }, []( __half2 x ) { return m::abs( x ); }, []( double const x, __half const got ) { return near( got, std::abs( x ), 0 ); } },
  { "square", []( __half x ) { return m::square( x ); }, []( __half2 x ) { return m::square( x ); }, ROUNDED( x * x ) },
  { "sqrt", []( __half x ) { return m::sqrt( x ); }, []( __half2 x ) { return m::sqrt( x ); }, ROUNDED( std::sqrt( x ) ) },
  { "invSqrt", []( __half x ) { return m::invSqrt( x ); }, []( __half2 x ) { return m::invSqrt( x ); }, ROUNDED( 1 / std::sqrt( x ) ) },
  { "sin", []( __half x ) { return m::sin( x ); }, []( __half2 x ) { return m::sin( x ); }, ROUNDED( std::sin( x ) ) },
  { "cos", []( __half x ) { return m::cos( x ); }, []( __half2 x ) { return m::cos( x ); }, ROUNDED( std::cos( x ) ) },
  { "sincos (sine)", []( __half x ) { __half s, c; m::sincos( x, s, c ); return s; }, []( __half2 x ) { __half2 s, c; m::sincos( x, s, c ); return s; }, ROUNDED( std::sin( x ) ) },
  { "sincos (cosine)", []( __half x ) { __half s, c; m::sincos( x, s, c ); return c; }, []( __half2 x ) { __half2 s, c; m::sincos( x, s, c ); return c; }, ROUNDED( std::cos( x ) ) },
  { "tan", []( __half x ) { return m::tan( x ); }, []( __half2 x ) { return m::tan( x ); }, okTan },
  { "asin", []( __half x ) { return m::asin( x ); }, []( __half2 x ) { return m::asin( x ); }, okAsin },
  { "acos", []( __half x ) { return m::acos( x ); }, []( __half2 x ) { return m::acos( x ); }, okAcos },
  { "exp", []( __half x ) { return m::exp( x ); }, []( __half2 x ) { return m::exp( x ); }, ROUNDED( std::exp( x ) ) },
  { "log", []( __half x ) { return m::log( x ); }, []( __half2 x ) { return m::log( x ); }, ROUNDED( std::log( x ) ) },
};
constexpr std::size_t NUNARY = sizeof( unaries ) / sizeof( unaries[ 0 ] );

void checkUnary( Unary const & f, __half const x, __half const y )
{
  __half const a = f.one( x );
  CHECK( f.ok( d( x ), a ), f.name, "( ", show( x ), " ) returned ", show( a ) );
  __half2 const p = f.two( __half2( x, y ) );
  CHECK( f.ok( d( x ), p.x ), f.name, " of the pair ", show( x ), ", ", show( y ), " returned first ", show( p.x ) );
  CHECK( f.ok( d( y ), p.y ), f.name, " of the pair ", show( x ), ", ", show( y ), " returned second ", show( p.y ) );
}
void unary( Src & s )
{
  Unary const & f = unaries[ s.choose( NUNARY - 1 ) ];
  __half const x = value( s ), y = value( s );
  LOG( s, f.name << " of " << show( x ) << " and " << show( y ) );
  s.label( f.name );
  checkUnary( f, x, y );
  if( bits( x ) != bits( y ) && !nan( x ) && !nan( y ) ) s.nontrivial();
}
Registrar rUnary( "half_functions", unary, 60000, "two different numbers that are not NaN" );

/// All numbers with the same upper byte.
void block( Src & s )
{
  Unary const & f = unaries[ s.choose( NUNARY - 1 ) ];
  unsigned const hi = static_cast< unsigned >( s.choose( 255 ) ) << 8, other = static_cast< unsigned >( s.choose( 65535 ) );
  LOG( s, f.name << " of every number with upper byte " << ( hi >> 8 ) );
  for( unsigned lo = 0; lo < 256; ++lo ) checkUnary( f, fromBits( hi | lo ), fromBits( ( other + lo * 257 ) & 0xffff ) );
  s.nontrivial();
}
Registrar rBlock( "half_sweep", block, 4000, "always: 256 consecutive numbers" );

bool okAtan2( __half const hy, __half const hx, __half const got )
{
  double const y = d( hy ), x = d( hx );
  double const w = std::atan2( y, x );
  if( std::isnan( w ) ) return nan( got );
  // The error of the ratio relative to the exact one is of the order of its spacing.
  double const big = std::max( std::abs( x ), std::abs( y ) ), small = std::min( std::abs( x ), std::abs( y ) ), ratio = small / big;
  double tol = 3 * EPS;
  if( ratio >= 1.0 / 1024 ) tol = std::min( tol, 2.5 * EPS * std::abs( w ) );
  return near( got, w, tol );
}
void binary( Src & s )
{
  __half const a = value( s ), b = value( s ), c = s.boolean( 0.2 ) ? a : value( s ), e = s.boolean( 0.2 ) ? b : value( s );
  if( nan( a ) || nan( b ) || nan( c ) || nan( e ) ) return;
  auto pair = [&]( __half ( * one )( __half, __half ), __half2 ( * two )( __half2, __half2 ), auto ok, char const * name )
  {
    LOG( s, name << " of " << show( a ) << ", " << show( b ) << " and " << show( c ) << ", " << show( e ) );
    s.label( name );
    __half const r = one( a, b );
    CHECK( ok( a, b, r ), name, "( ", show( a ), ", ", show( b ), " ) returned ", show( r ) );
    __half2 const p = two( __half2( a, c ), __half2( b, e ) );
    CHECK( ok( a, b, p.x ), name, " of pairs returned first ", show( p.x ), " for ", show( a ), ", ", show( b ) );
    CHECK( ok( c, e, p.y ), name, " of pairs returned second ", show( p.y ), " for ", show( c ), ", ", show( e ) );
    __half2 const q = two( __half2( c, a ), __half2( e, b ) );
    CHECK( same( p.x, q.y ) && same( p.y, q.x ), name, ": the result of a component depends on the other component" );
  };
  switch( s.choose( 3 ) )
  {
    case 0: pair( []( __half x, __half y ) { return m::max( x, y ); }, []( __half2 x, __half2 y ) { return m::max( x, y ); }, []( __half x, __half y, __half r ) { return same( r, x > y ? x : y ); }, "max" ); break;
    case 1: pair( []( __half x, __half y ) { return m::min( x, y ); }, []( __half2 x, __half2 y ) { return m::min( x, y ); }, []( __half x, __half y, __half r ) { return same( r, x < y ? x : y ); }, "min" ); break;
    default:
    {
      auto outside = []( __half y, __half x ) { return ( d( x ) == 0 && d( y ) == 0 ) || ( std::isinf( float( x ) ) && std::isinf( float( y ) ) ) || ( d( y ) == 0 && bits( y ) ); };
      if( outside( a, b ) || outside( c, e ) ) return;
      pair( []( __half y, __half x ) { return m::atan2( y, x ); }, []( __half2 y, __half2 x ) { return m::atan2( y, x ); }, okAtan2, "atan2" );
    }
  }
  s.nontrivial();
}
Registrar rBinary( "half_binary", binary, 60000, "max, min or atan2 of numbers that are not NaN" );

void conversions( Src & s )
{
  static_assert( std::is_same< m::SingleType< __half >, __half >::value && std::is_same< m::SingleType< __half2 >, __half >::value && std::is_same< m::SingleType< float >, float >::value, "" );
  CHECK_EQ( m::numValues< __half >(), 1 ); CHECK_EQ( m::numValues< __half2 >(), 2 ); CHECK_EQ( m::numValues< double >(), 1 );
  __half const x = value( s ), y = value( s );
  float const f = s.boolean() ? static_cast< float >( s.real( false ) ) : float( x ) * ( 1 + static_cast< float >( s.range( -8, 8 ) ) / 8192.0f ), g = s.boolean() ? f : static_cast< float >( s.real( false ) );
  int const i = s.range( -70000, 70000 );
  LOG( s, "convert " << show( x ) << ", " << show( y ) << ", " << f << ", " << g << ", " << i );
  auto rounds = []( double const v, __half const got )
  {
    if( std::isnan( v ) ) return nan( got );
    if( nan( got ) ) return false;
    if( std::abs( v ) >= 65520 ) return std::isinf( float( got ) ) && ( d( got ) > 0 ) == ( v > 0 );
    if( std::isinf( float( got ) ) ) return false;
    double const e = std::abs( d( got ) - v ), u = ulp( v );
    return e <= u / 2;
  };
  CHECK( rounds( f, m::convert< __half >( f ) ), "convert to half of ", f );
  CHECK( rounds( i, m::convert< __half >( i ) ), "convert to half of ", i );
  CHECK( bits( m::convert< __half >( x ) ) == bits( x ) || nan( x ), "convert half to half" );
  if( !std::isnan( f ) ) { CHECK_EQ( m::convert< double >( f ), static_cast< double >( f ) ); }
  __half2 p = m::convert< __half2 >( f );
  CHECK( rounds( f, p.x ) && rounds( f, p.y ), "convert to a pair of ", f );
  p = m::convert< __half2 >( x );
  CHECK( same( p.x, x ) && same( p.y, x ), "convert a half to a pair" );
  p = m::convert< __half2 >( f, g );
  CHECK( rounds( f, p.x ) && rounds( g, p.y ), "convert two floats to a pair" );
  p = m::convert< __half2 >( i, f );
  CHECK( rounds( i, p.x ) && rounds( f, p.y ), "convert two numbers to a pair" );
  p = m::convert< __half2 >( x, y );
  CHECK( same( p.x, x ) && same( p.y, y ), "convert two halves to a pair" );
  CHECK( same( m::getFirst( p ), x ) && same( m::getSecond( p ), y ), "getFirst, getSecond of a pair" );
  CHECK( same( m::getFirst( x ), x ) && same( m::getSecond( x ), x ), "getFirst, getSecond of a half" );
  if( !std::isnan( f ) ) { CHECK( m::getFirst( f ) == f && m::getSecond( f ) == f, "getFirst, getSecond of a float" ); }
  std::ostringstream a, b, c, e;
  a << x; b << float( x ); c << p; e << float( x ) << ", " << float( y );
  CHECK_EQ( a.str(), b.str(), "output of a half" ); CHECK_EQ( c.str(), e.str(), "output of a pair" );
  using L = LvArray::NumericLimits< __half >; using L2 = LvArray::NumericLimits< __half2 >;
  CHECK( bits( __half( L::min ) ) == 0x400 && bits( __half( L::max ) ) == 0x7bff && bits( __half( L::lowest ) ) == 0xfbff && bits( __half( L::denorm_min ) ) == 1 && d( __half( L::epsilon ) ) == EPS, "NumericLimits< __half >" );
  CHECK( L2::min == L::min && L2::max == L::max && L2::lowest == L::lowest && L2::denorm_min == L::denorm_min && L2::epsilon == L::epsilon );
  LvArray::NumericLimitsNC< __half > const nc {};
  CHECK( bits( nc.min ) == 0x400 && bits( nc.max ) == 0x7bff && bits( nc.lowest ) == 0xfbff && bits( nc.denorm_min ) == 1 && d( nc.epsilon ) == EPS );
  if( bits( x ) != bits( y ) ) s.nontrivial();
}
Registrar rConvert( "half_conversions", conversions, 20000, "two different halves" );
}
