// Stand-in for CUDA's half precision types on the host: every operation rounds correctly, once.
#pragma once
#include <cmath>
#include <cstring>
struct __half
{
  constexpr __half(): v( 0 ) {}
  constexpr __half( float x ): v( static_cast< _Float16 >( x ) ) {}
  constexpr __half( double x ): v( static_cast< _Float16 >( x ) ) {}
  constexpr __half( short x ): __half( static_cast< float >( x ) ) {}
  constexpr __half( unsigned short x ): __half( static_cast< float >( x ) ) {}
  constexpr __half( int x ): __half( static_cast< float >( x ) ) {}
  constexpr __half( unsigned int x ): __half( static_cast< float >( x ) ) {}
  constexpr __half( long long x ): __half( static_cast< float >( x ) ) {}
  constexpr __half( unsigned long long x ): __half( static_cast< float >( x ) ) {}
  constexpr operator float() const { return static_cast< float >( v ); }
  __half & operator+=( __half const o );
  __half & operator-=( __half const o );
  __half & operator*=( __half const o );
  __half & operator/=( __half const o );
  _Float16 v;
};
struct float2 { float x, y; };
struct __half2
{
  constexpr __half2() {}
  constexpr __half2( __half const a, __half const b ): x( a ), y( b ) {}
  __half2 & operator+=( __half2 const o );
  __half2 & operator-=( __half2 const o );
  __half2 & operator*=( __half2 const o );
  __half2 & operator/=( __half2 const o );
  __half x, y;
};
using half = __half;
using half2 = __half2;

// Conversions
constexpr __half __float2half_rn( float const x ) { return __half( x ); }
constexpr __half __float2half( float const x ) { return __half( x ); }
constexpr __half __double2half( double const x ) { return __half( x ); }
constexpr __half __int2half_rn( int const x ) { return __half( x ); }
constexpr float __half2float( __half const x ) { return float( x ); }
constexpr __half2 __float2half2_rn( float const x ) { return __half2( __half( x ), __half( x ) ); }
constexpr __half2 __floats2half2_rn( float const x, float const y ) { return __half2( __half( x ), __half( y ) ); }
constexpr __half2 __float22half2_rn( float2 const x ) { return __floats2half2_rn( x.x, x.y ); }
constexpr __half2 __half2half2( __half const x ) { return __half2( x, x ); }
constexpr __half2 __halves2half2( __half const x, __half const y ) { return __half2( x, y ); }
constexpr __half2 make_half2( __half const x, __half const y ) { return __half2( x, y ); }
constexpr float2 __half22float2( __half2 const h ) { return float2 { float( h.x ), float( h.y ) }; }
constexpr __half __low2half( __half2 const x ) { return x.x; }
constexpr __half __high2half( __half2 const x ) { return x.y; }
constexpr float __low2float( __half2 const x ) { return float( x.x ); }
constexpr float __high2float( __half2 const x ) { return float( x.y ); }
constexpr __half2 __low2half2( __half2 const x ) { return __half2( x.x, x.x ); }
constexpr __half2 __high2half2( __half2 const x ) { return __half2( x.y, x.y ); }
constexpr __half2 __lowhigh2highlow( __half2 const x ) { return __half2( x.y, x.x ); }
constexpr __half2 __lows2half2( __half2 const x, __half2 const y ) { return __half2( x.x, y.x ); }
constexpr __half2 __highs2half2( __half2 const x, __half2 const y ) { return __half2( x.y, y.y ); }
inline unsigned short __half_as_ushort( __half const x ) { unsigned short r; std::memcpy( &r, &x.v, 2 ); return r; }
inline __half __ushort_as_half( unsigned short const x ) { __half r; std::memcpy( &r.v, &x, 2 ); return r; }

// Arithmetic. A float holds the exact product of two halves, and rounding its sums, quotients and square roots again to half
// gives the correctly rounded result.
#define VERIF_OP( op, name, name2 ) \
  constexpr __half name( __half const a, __half const b ) { return __half( float( a ) op float( b ) ); } \
  constexpr __half2 name2( __half2 const a, __half2 const b ) { return __half2( name( a.x, b.x ), name( a.y, b.y ) ); } \
  constexpr __half operator op( __half const a, __half const b ) { return name( a, b ); } \
  constexpr __half2 operator op( __half2 const a, __half2 const b ) { return name2( a, b ); } \
  inline __half & __half::operator op##=( __half const o ) { return *this = name( *this, o ); } \
  inline __half2 & __half2::operator op##=( __half2 const o ) { return *this = name2( *this, o ); }
VERIF_OP( +, __hadd, __hadd2 )
VERIF_OP( -, __hsub, __hsub2 )
VERIF_OP( *, __hmul, __hmul2 )
VERIF_OP( /, __hdiv, __h2div )
#undef VERIF_OP
inline __half __hneg( __half const a ) { return __ushort_as_half( static_cast< unsigned short >( __half_as_ushort( a ) ^ 0x8000u ) ); }
inline __half2 __hneg2( __half2 const a ) { return __half2( __hneg( a.x ), __hneg( a.y ) ); }
inline __half operator-( __half const a ) { return __hneg( a ); }
inline __half2 operator-( __half2 const a ) { return __hneg2( a ); }
inline __half operator+( __half const a ) { return a; }
inline __half2 operator+( __half2 const a ) { return a; }
inline __half __habs( __half const a ) { return __ushort_as_half( static_cast< unsigned short >( __half_as_ushort( a ) & 0x7fffu ) ); }
inline __half2 __habs2( __half2 const a ) { return __half2( __habs( a.x ), __habs( a.y ) ); }
inline __half __hfma( __half const a, __half const b, __half const c ) { return __half( std::fma( double( float( a ) ), double( float( b ) ), double( float( c ) ) ) ); }
inline __half2 __hfma2( __half2 const a, __half2 const b, __half2 const c ) { return __half2( __hfma( a.x, b.x, c.x ), __hfma( a.y, b.y, c.y ) ); }

// Comparisons
#define VERIF_OP( op, name, name2 ) \
  constexpr bool name( __half const a, __half const b ) { return float( a ) op float( b ); } \
  constexpr __half2 name2( __half2 const a, __half2 const b ) { return __half2( __half( name( a.x, b.x ) ? 1.0f : 0.0f ), __half( name( a.y, b.y ) ? 1.0f : 0.0f ) ); } \
  constexpr bool operator op( __half const a, __half const b ) { return name( a, b ); } \
  constexpr bool operator op( __half2 const a, __half2 const b ) { return name( a.x, b.x ) && name( a.y, b.y ); }
VERIF_OP( <, __hlt, __hlt2 )
VERIF_OP( <=, __hle, __hle2 )
VERIF_OP( >, __hgt, __hgt2 )
VERIF_OP( >=, __hge, __hge2 )
VERIF_OP( ==, __heq, __heq2 )
VERIF_OP( !=, __hne, __hne2 )
#undef VERIF_OP
inline bool __hisnan( __half const a ) { return std::isnan( float( a ) ); }
inline int __hisinf( __half const a ) { return std::isinf( float( a ) ) ? ( float( a ) < 0 ? -1 : 1 ) : 0; }
inline __half __hmax( __half const a, __half const b )
{ return __hisnan( a ) ? b : __hisnan( b ) ? a : a == b ? ( std::signbit( float( a ) ) ? b : a ) : a > b ? a : b; }
inline __half __hmin( __half const a, __half const b )
{ return __hisnan( a ) ? b : __hisnan( b ) ? a : a == b ? ( std::signbit( float( a ) ) ? a : b ) : a < b ? a : b; }
inline __half2 __hmax2( __half2 const a, __half2 const b ) { return __half2( __hmax( a.x, b.x ), __hmax( a.y, b.y ) ); }
inline __half2 __hmin2( __half2 const a, __half2 const b ) { return __half2( __hmin( a.x, b.x ), __hmin( a.y, b.y ) ); }

// Functions
#define VERIF_FN( fn, expr ) \
  inline __half h##fn( __half const h ) { double const x = float( h ); return __half( expr ); } \
  inline __half2 h2##fn( __half2 const x ) { return __half2( h##fn( x.x ), h##fn( x.y ) ); }
VERIF_FN( sqrt, std::sqrt( x ) )
VERIF_FN( rsqrt, 1 / std::sqrt( x ) )
VERIF_FN( rcp, 1 / x )
VERIF_FN( sin, std::sin( x ) )
VERIF_FN( cos, std::cos( x ) )
VERIF_FN( exp, std::exp( x ) )
VERIF_FN( exp2, std::exp2( x ) )
VERIF_FN( log, std::log( x ) )
VERIF_FN( log2, std::log2( x ) )
#undef VERIF_FN
