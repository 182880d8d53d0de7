// C04 numeric limits mirror std::numeric_limits.
#include "limits.hpp"
#include "pbt.hpp"
using namespace pbt;
namespace
{
template< typename T > bool same( T a, T b ) { return std::memcmp( &a, &b, sizeof( T ) == 16 ? 10 : sizeof( T ) ) == 0; }

template< typename T > void limits( Src & s, char const * name )
{
  using L = LvArray::NumericLimits< T >;
  using S = std::numeric_limits< T >;
  LvArray::NumericLimitsNC< T > nc {};
  int const f = static_cast< int >( s.choose( 17 ) );
  LOG( s, name << " field " << f );
  s.nontrivial();
  bool ok = true;
  switch( f )
  {
    case 0: ok = same< T >( L::min, S::min() ); break;
    case 1: ok = same< T >( L::lowest, S::lowest() ); break;
    case 2: ok = same< T >( L::max, S::max() ); break;
    case 3: ok = same< T >( L::epsilon, S::epsilon() ); break;
    case 4: ok = same< T >( L::round_error, S::round_error() ); break;
    case 5: ok = same< T >( L::infinity, S::infinity() ); break;
    case 6: ok = same< T >( L::quiet_NaN, S::quiet_NaN() ); break;
    case 7:
    {
      // Constants: loading one into a floating point register may turn it into a quiet NaN.
      static T const a = L::signaling_NaN, b = S::signaling_NaN();
      ok = std::memcmp( &a, &b, sizeof( T ) == 16 ? 10 : sizeof( T ) ) == 0 && ( !S::has_signaling_NaN || a != a );
      break;
    }
    case 8: ok = same< T >( L::denorm_min, S::denorm_min() ); break;
    case 9: ok = same< T >( nc.min, S::min() ); break;
    case 10: ok = same< T >( nc.lowest, S::lowest() ); break;
    case 11: ok = same< T >( nc.max, S::max() ); break;
    case 12: ok = same< T >( nc.epsilon, S::epsilon() ); break;
    case 13: ok = same< T >( nc.denorm_min, S::denorm_min() ); break;
    case 14: ok = L::is_signed == S::is_signed && L::is_integer == S::is_integer && L::is_specialized == S::is_specialized; break;
    case 15: ok = L::digits == S::digits && L::digits10 == S::digits10 && L::max_digits10 == S::max_digits10; break;
    case 16: ok = L::has_infinity == S::has_infinity && L::has_quiet_NaN == S::has_quiet_NaN && L::is_exact == S::is_exact && L::radix == S::radix; break;
    default: ok = L::min_exponent == S::min_exponent && L::max_exponent == S::max_exponent && L::is_iec559 == S::is_iec559 && L::is_bounded == S::is_bounded && L::is_modulo == S::is_modulo; break;
  }
  CHECK( ok, "NumericLimits of ", name, " field ", f, " differs from std::numeric_limits" );
}
void all( Src & s )
{
  // Every field of every type is visited many times over: 18 types x 18 fields.
  switch( s.choose( 17 ) )
  {
#define T( n, t ) case n: limits< t >( s, #t ); break;
    T( 0, bool ) T( 1, char ) T( 2, signed char ) T( 3, unsigned char ) T( 4, short ) T( 5, unsigned short ) T( 6, int ) T( 7, unsigned int ) T( 8, long )
    T( 9, unsigned long ) T( 10, long long ) T( 11, unsigned long long ) T( 12, float ) T( 13, double ) T( 14, long double ) T( 15, wchar_t ) T( 16, char16_t )
    default: limits< char32_t >( s, "char32_t" );
  }
}
Registrar r( "numeric_limits", all, 20000, "one field of one arithmetic type compared bit for bit; all count" );
}
