// C03 math wrappers against the C++ standard library.
#include "math.hpp"
#include "pbt.hpp"
#include <algorithm>
#include <tuple>
using namespace pbt;
namespace m = LvArray::math;

namespace
{
/// Distance allowed: a few units in the last place of the result type.
template< typename T > bool close( T got, T want )
{
  if( std::isnan( want ) ) return std::isnan( got );
  if( std::isinf( want ) ) return got == want;
  if( got == want ) return true;
  T const scale = std::max( std::abs( want ), std::numeric_limits< T >::min() );
  return std::abs( got - want ) <= 4 * std::numeric_limits< T >::epsilon() * scale;
}

template< typename T > using Result = std::conditional_t< std::is_same< T, float >::value, float, double >;

template< typename T > T value( Src & s )
{
  if constexpr( std::is_floating_point< T >::value )
  {
    switch( s.weighted( { 4, 2, 2, 1, 1 } ) )
    {
      case 0: return static_cast< T >( s.real( false ) );
      case 1: return static_cast< T >( static_cast< double >( s.range( 0, 4000 ) - 2000 ) / 2000.0 );           // [-1, 1]
      case 2: return static_cast< T >( static_cast< double >( s.range( 0, 100 ) - 50 ) * 0.78539816339744830962 ); // multiples of pi/4
      case 4: return static_cast< T >( ( s.boolean() ? -1 : 1 ) * std::ldexp( 1.0 + static_cast< double >( s.choose( ( 1ull << 52 ) - 1 ) ) / 4503599627370496.0,
                                                                              s.range( 0, std::numeric_limits< T >::max_exponent - 2 ) * ( s.boolean() ? -1 : 1 ) ) );
      default:
      {
        static T const special[] = { std::numeric_limits< T >::infinity(), -std::numeric_limits< T >::infinity(), std::numeric_limits< T >::quiet_NaN(), std::numeric_limits< T >::max(),
                                     std::numeric_limits< T >::lowest(), std::numeric_limits< T >::min(), std::numeric_limits< T >::denorm_min(), -std::numeric_limits< T >::denorm_min(), T( 0 ), -T( 0 ), T( 1 ), T( -1 ), T( 709 ), T( -745 ), T( 88 ) };
        return special[ s.choose( 14 ) ];
      }
    }
  }
  else
  {
    if( s.boolean( 0.5 ) ) return s.integer< T >();
    return static_cast< T >( s.integer< int >( std::is_signed< T >::value ? -40 : 0, 40 ) );
  }
}

template< typename T > void unary( Src & s, char const * type )
{
  using R = Result< T >;
  T const x = value< T >( s );
  // What the standard library gives: float for float, double otherwise.
  R const w = static_cast< R >( x );
  int const f = static_cast< int >( s.choose( 10 ) );
  R got {}, want {}; char const * name = "";
  switch( f )
  {
#define F( n, fn, expr ) case n: { auto const r = m::fn( x ); static_assert( std::is_same< decltype( r ), R const >::value, "type of " #fn ); got = r; want = ( expr ); name = #fn; break; }
    F( 0, sqrt, std::sqrt( w ) )
    F( 1, invSqrt, R( 1 ) / std::sqrt( w ) )
    F( 2, sin, std::sin( w ) )
    F( 3, cos, std::cos( w ) )
    F( 4, tan, std::tan( w ) )
    F( 5, asin, std::asin( w ) )
    F( 6, acos, std::acos( w ) )
    F( 7, exp, std::exp( w ) )
    F( 8, log, std::log( w ) )
#undef F
    default:
    {
      R sn {}, cs {};
      m::sincos( x, sn, cs );
      got = sn; want = std::sin( w ); name = "sincos";
      CHECK( close( cs, std::cos( w ) ), "cosine from sincos of ", type, " ", x, ": ", cs, " expected ", std::cos( w ) );
    }
  }
  LOG( s, name << "( " << type << " " << +x << " )" );
  s.label( name ); s.nontrivial();
  CHECK( close( got, want ), name, "( ", type, " ", +x, " ) returned ", got, " expected ", want );
}

template< typename T > void binary( Src & s, char const * type )
{
  using R = Result< T >;
  T x = value< T >( s ), y = s.boolean( 0.2 ) ? x : value< T >( s );
  LOG( s, "binary of " << type << " " << +x << ", " << +y );
  s.nontrivial();
  auto same = []( T a, T b ) { return a == b || ( a != a && b != b ); };
  switch( s.choose( 2 ) )
  {
    case 0:
    {
      static_assert( std::is_same< decltype( m::max( x, y ) ), T >::value, "type of max" );
      s.label( "max" );
      CHECK( same( m::max( x, y ), std::max( x, y ) ), "max of ", type, " ", +x, ", ", +y, " returned ", +m::max( x, y ) );
      break;
    }
    case 1:
    {
      static_assert( std::is_same< decltype( m::min( x, y ) ), T >::value, "type of min" );
      s.label( "min" );
      CHECK( same( m::min( x, y ), std::min( x, y ) ), "min of ", type, " ", +x, ", ", +y, " returned ", +m::min( x, y ) );
      break;
    }
    default:
    {
      auto const r = m::atan2( y, x );
      static_assert( std::is_same< decltype( r ), R const >::value, "type of atan2" );
      s.label( "atan2" );
      R const want = std::atan2( static_cast< R >( y ), static_cast< R >( x ) );
      CHECK( close( r, want ), "atan2( ", +y, ", ", +x, " ) of ", type, " returned ", r, " expected ", want );
      // The sign of a zero result separates the half planes.
      if( want == 0 ) CHECK( std::signbit( r ) == std::signbit( want ), "sign of zero from atan2( ", +y, ", ", +x, " )" );
    }
  }
}

template< typename T > void misc( Src & s, char const * type )
{
  T x = value< T >( s );
  LOG( s, "misc of " << type << " " << +x );
  s.nontrivial();
  auto same = []( T a, T b ) { return a == b || ( a != a && b != b ); };
  switch( s.choose( 4 ) )
  {
    case 0:
      if constexpr( std::is_signed< T >::value )
      {
        if( std::is_integral< T >::value && x == std::numeric_limits< T >::lowest() ) x = static_cast< T >( x + 1 );
        static_assert( std::is_same< decltype( m::abs( x ) ), T >::value, "type of abs" );
        T const want = x < 0 ? static_cast< T >( -x ) : x;
        CHECK( same( m::abs( x ), want ), "abs( ", type, " ", +x, " ) returned ", +m::abs( x ) );
        if( x == 0 && std::is_floating_point< T >::value ) CHECK( !std::signbit( static_cast< double >( m::abs( x ) ) ), "abs of negative zero" );
      }
      break;
    case 1:
      if( std::is_integral< T >::value )
      {
        long double const lim = std::sqrt( static_cast< long double >( std::numeric_limits< T >::max() ) ) - 1;
        if( static_cast< long double >( x ) > lim || static_cast< long double >( x ) < -lim ) x = static_cast< T >( static_cast< long long >( x ) % 11 );
      }
      CHECK( same( m::square( x ), static_cast< T >( x * x ) ), "square( ", type, " ", +x, " ) returned ", +m::square( x ) );
      break;
    case 2:
      CHECK_EQ( m::numValues< T >(), 1 );
      static_assert( std::is_same< m::SingleType< T >, T >::value, "single type" );
      CHECK( same( m::getFirst( x ), x ) && same( m::getSecond( x ), x ), "getFirst/getSecond do not return their argument" );
      break;
    case 3:
    {
      int const k = s.range( 0, 100 );
      CHECK( m::convert< T >( k ) == static_cast< T >( k ), "convert< ", type, " >( ", k, " )" );
      CHECK( m::convert< double >( x ) == static_cast< double >( x ) || x != x, "convert< double >( ", type, " ", +x, " )" );
      CHECK( same( m::convert< T >( x ), x ), "convert to the same type" );
      break;
    }
    default:
    {
      double const d = static_cast< double >( s.range( 0, 1000 ) ) / 8.0;
      CHECK( m::convert< float >( d ) == static_cast< float >( d ), "convert< float >( double )" );
    }
  }
}

template< typename F > void overTypes( Src & s, F && f )
{
  switch( s.choose( 8 ) )
  {
    case 0: f( float {}, "float" ); break;
    case 1: f( double {}, "double" ); break;
    case 2: f( int {}, "int" ); break;
    case 3: f( long {}, "long" ); break;
    case 4: f( short {}, "short" ); break;
    case 5: f( unsigned {}, "unsigned" ); break;
    case 6: f( (unsigned long)( 0 ), "unsigned long" ); break;
    case 7: f( (signed char)( 0 ), "signed char" ); break;
    default: f( (long long)( 0 ), "long long" );
  }
}
void unaries( Src & s ) { overTypes( s, [&]( auto t, char const * n ) { unary< decltype( t ) >( s, n ); } ); }
void binaries( Src & s ) { overTypes( s, [&]( auto t, char const * n ) { binary< decltype( t ) >( s, n ); } ); }
void miscs( Src & s ) { overTypes( s, [&]( auto t, char const * n ) { misc< decltype( t ) >( s, n ); } ); }

Registrar r1( "unary", unaries, 1500000, "one function at one argument (special values, grid points, random bit patterns) of one type; all count" );
Registrar r2( "binary", binaries, 500000, "max, min or atan2 of one argument pair; all count" );
Registrar r3( "misc", miscs, 300000, "abs, square, convert, single value helpers at one argument; all count" );
}
