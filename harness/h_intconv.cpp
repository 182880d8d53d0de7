// C01 integer conversion, C04 numeric limits.
#include "limits.hpp"
#include "lv.hpp"
#include <tuple>
using namespace pbt;

namespace
{
using Types = std::tuple< signed char, unsigned char, char, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long >;
using InTypes = std::tuple< signed char, unsigned char, char, short, unsigned short, int, unsigned int, long, unsigned long, long long, unsigned long long, bool, wchar_t, char16_t, char32_t >;
constexpr std::size_t N = std::tuple_size< Types >::value, NI = std::tuple_size< InTypes >::value;

template< typename IN, typename OUT > bool representable( IN v )
{
  __int128 const w = v;
  return w >= static_cast< __int128 >( std::numeric_limits< OUT >::min() ) && w <= static_cast< __int128 >( std::numeric_limits< OUT >::max() );
}
std::string text( __int128 v ) { return v < 0 ? "-" + std::to_string( static_cast< unsigned long long >( -v ) ) : std::to_string( static_cast< unsigned long long >( v ) ); }

template< typename IN, typename OUT > void one( IN v )
{
  OUT r {};
  static_assert( std::is_same< decltype( LvArray::integerConversion< OUT >( v ) ), OUT >::value, "return type" );
  bool const err = lv::reportsError( [&]() { r = LvArray::integerConversion< OUT >( v ); } );
  char const * const i = __PRETTY_FUNCTION__;
  if( representable< IN, OUT >( v ) )
  {
    CHECK( !err, "error for representable value ", text( v ), " in ", i );
    CHECK( static_cast< __int128 >( r ) == static_cast< __int128 >( v ), "value ", text( v ), " became ", text( r ), " in ", i );
  }
  else CHECK( err, "no error for value ", text( v ), ", returned ", text( r ), " in ", i );
}

template< typename IN > IN genValue( Src & s, __int128 outLo, __int128 outHi )
{
  __int128 const lo = std::numeric_limits< IN >::min(), hi = std::numeric_limits< IN >::max();
  std::size_t const k = s.weighted( { 3, 3, 3, 1 } );
  __int128 v = 0;
  if( k == 0 ) v = s.integer< IN >();
  else if( k == 1 ) v = outLo + s.range< int >( 0, 8 ) - 4;
  else if( k == 2 ) v = outHi + s.range< int >( 0, 8 ) - 4;
  else v = s.range< int >( 0, 300 ) - 150;
  return static_cast< IN >( v < lo ? lo : v > hi ? hi : v );
}

template< typename IN, std::size_t O > void dispatchOut( std::size_t o, Src & s )
{
  if constexpr( O < N )
  {
    if( o != O ) return dispatchOut< IN, O + 1 >( o, s );
    using OUT = std::tuple_element_t< O, Types >;
    IN const v = genValue< IN >( s, std::numeric_limits< OUT >::min(), std::numeric_limits< OUT >::max() );
    bool const rep = representable< IN, OUT >( v );
    s.label( rep ? "representable" : "not representable" );
    if( std::is_signed< IN >::value && std::is_unsigned< OUT >::value && sizeof( IN ) < sizeof( OUT ) ) s.label( "small signed to big unsigned" );
    s.nontrivial();
    LOG( s, __PRETTY_FUNCTION__ << " value " << text( v ) );
    one< IN, OUT >( v );
  }
}
template< std::size_t I > void dispatchIn( std::size_t i, std::size_t o, Src & s )
{
  if constexpr( I < NI )
  {
    if( i != I ) return dispatchIn< I + 1 >( i, o, s );
    dispatchOut< std::tuple_element_t< I, InTypes >, 0 >( o, s );
  }
}
void conversion( Src & s )
{
  std::size_t const i = s.choose( NI - 1 ), o = s.choose( N - 1 );
  dispatchIn< 0 >( i, o, s );
}

template< typename IN, std::size_t O > void exhaustOut( std::size_t o, Src & s, int block )
{
  if constexpr( O < N )
  {
    if( o != O ) return exhaustOut< IN, O + 1 >( o, s, block );
    using OUT = std::tuple_element_t< O, Types >;
    for( long v = std::numeric_limits< IN >::min(); v <= std::numeric_limits< IN >::max(); ++v )
    {
      // Every 8 bit value; for 16 bits every value that must convert and a stride of those that must not (errors are slow).
      IN const w = static_cast< IN >( v );
      if( sizeof( IN ) == 1 || representable< IN, OUT >( w ) || v % 257 == block ) one< IN, OUT >( w );
    }
  }
}
void exhaustive( Src & s )
{
  std::size_t const o = s.choose( N - 1 );
  int const block = static_cast< int >( s.choose( 256 ) );
  s.nontrivial();
  switch( s.choose( 4 ) )
  {
    case 0: exhaustOut< signed char, 0 >( o, s, block ); break;
    case 1: exhaustOut< unsigned char, 0 >( o, s, block ); break;
    case 2: exhaustOut< char, 0 >( o, s, block ); break;
    case 3: exhaustOut< short, 0 >( o, s, block ); break;
    default: exhaustOut< unsigned short, 0 >( o, s, block );
  }
}

Registrar r1( "conversion", conversion, 60000, "every case converts one value of a random type pair, values biased to the target's bounds; all count" );
Registrar r2( "exhaustive_small", exhaustive, 150, "all 8 bit (and all convertible 16 bit) source values to one target type", false, false );
}
