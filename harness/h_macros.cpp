// C02 error, throw, warning, info and assert macros.
#include "Macros.hpp"
#include "lv.hpp"
#include <stdexcept>
#include <typeinfo>
using namespace pbt;

namespace
{
struct MyError : std::runtime_error { using std::runtime_error::runtime_error; };
struct LibError {};

int g_l, g_r, g_m;
template< typename T > T const & L( T const & v ) { ++g_l; return v; }
template< typename T > T const & R( T const & v ) { ++g_r; return v; }
std::string const & M( std::string const & m ) { ++g_m; return m; }

enum Effect { NONE, ERROR, THROW_RUNTIME, THROW_INVALID, THROW_MINE };
struct Result { Effect effect; std::string text; };

/// Runs f, reporting what it did and what it printed.
template< typename F > Result observe( F && f )
{
  g_l = g_r = g_m = 0;
  std::ostringstream out;
  auto * const oldC = std::cout.rdbuf( out.rdbuf() );
  LvArray::system::setErrorHandler( []() { throw LibError {}; } );
  Result r { NONE, "" };
  std::string what;
  try { f(); }
  catch( LibError const & ) { r.effect = ERROR; }
  catch( MyError const & e ) { r.effect = THROW_MINE; what = e.what(); }
  catch( std::invalid_argument const & e ) { r.effect = typeid( e ) == typeid( std::invalid_argument ) ? THROW_INVALID : NONE; what = e.what(); }
  catch( std::runtime_error const & e ) { r.effect = typeid( e ) == typeid( std::runtime_error ) ? THROW_RUNTIME : NONE; what = e.what(); }
  std::cout.rdbuf( oldC );
  installLibraryErrorHandler();
  r.text = out.str() + what;
  return r;
}
bool has( std::string const & t, std::string const & n ) { return t.find( n ) != std::string::npos; }

template< typename T > std::string str( T const & v ) { std::ostringstream o; o << v; return o.str(); }

/// Checks one macro use against the expectation that it acts iff cond.
void verify( Result const & r, bool cond, Effect expected, bool expectText, std::string const & msg, std::string const & l, std::string const & rr, int operands, std::string const & what )
{
  if( cond )
  {
    CHECK_EQ( int( r.effect ), int( expected ), what, " should have acted" );
    if( expectText )
    {
      CHECK( has( r.text, msg ), what, " lost the message, text: ", r.text );
      if( !l.empty() ) CHECK( has( r.text, "= " + l ) && has( r.text, "= " + rr ), what, " lost the operand values ", l, " ", rr, ", text: ", r.text );
    }
  }
  else
  {
    CHECK_EQ( int( r.effect ), int( NONE ), what, " should not have acted" );
    CHECK( r.text.empty(), what, " printed ", r.text );
    CHECK_EQ( g_m, 0, what, " evaluated its message" );
    if( operands ) CHECK( g_l == 1 && g_r == 1, what, " evaluated its operands ", g_l, " and ", g_r, " times" );
  }
}

#ifdef NDEBUG
constexpr bool ASSERTS = false;
#else
constexpr bool ASSERTS = true;
#endif

template< typename T > void comparisons( Src & s, T const & a, T const & b, std::string const & msg, char const * type )
{
  bool const eq = a == b, ne = a != b, gt = a > b, ge = a >= b, lt = a < b, le = a <= b;
  std::string const x = str( a ), y = str( b );
  int const k = static_cast< int >( s.choose( 31 ) );
  LOG( s, "macro " << k << " on " << type << " " << x << ", " << y << " message '" << msg << "'" );
  s.label( a == b ? "equal operands" : a < b ? "less" : b < a ? "greater" : "unordered" );
  bool cond = false; Effect e = ERROR; Result r; std::string m; std::string name;
  bool isAssert = false;
#define E1( N, OP, C ) case N: r = observe( [&]() { LVARRAY_ERROR_IF_ ## OP( L( a ), R( b ) ); } ); cond = C; name = "ERROR_IF_" #OP; break;
#define E2( N, OP, C ) case N: r = observe( [&]() { LVARRAY_ERROR_IF_ ## OP ## _MSG( L( a ), R( b ), M( msg ) ); } ); cond = C; m = msg; name = "ERROR_IF_" #OP "_MSG"; break;
#define T1( N, OP, C, X, EF ) case N: r = observe( [&]() { LVARRAY_THROW_IF_ ## OP( L( a ), R( b ), X ); } ); cond = C; e = EF; name = "THROW_IF_" #OP; break;
#define T2( N, OP, C, X, EF ) case N: r = observe( [&]() { LVARRAY_THROW_IF_ ## OP ## _MSG( L( a ), R( b ), M( msg ), X ); } ); cond = C; e = EF; m = msg; name = "THROW_IF_" #OP "_MSG"; break;
#define A1( N, OP, C ) case N: r = observe( [&]() { LVARRAY_ASSERT_ ## OP( L( a ), R( b ) ); } ); cond = !( C ); isAssert = true; name = "ASSERT_" #OP; break;
#define A2( N, OP, C ) case N: r = observe( [&]() { LVARRAY_ASSERT_ ## OP ## _MSG( L( a ), R( b ), M( msg ) ); } ); cond = !( C ); m = msg; isAssert = true; name = "ASSERT_" #OP "_MSG"; break;
  switch( k )
  {
    E1( 0, EQ, eq ) E1( 1, NE, ne ) E1( 2, GT, gt ) E1( 3, GE, ge ) E1( 4, LT, lt ) E1( 5, LE, le )
    E2( 6, EQ, eq ) E2( 7, NE, ne ) E2( 8, GT, gt ) E2( 9, GE, ge ) E2( 10, LT, lt ) E2( 11, LE, le )
    T1( 12, EQ, eq, MyError, THROW_MINE ) T1( 13, NE, ne, std::runtime_error, THROW_RUNTIME ) T1( 14, GT, gt, std::invalid_argument, THROW_INVALID )
    T1( 15, GE, ge, MyError, THROW_MINE ) T1( 16, LT, lt, std::runtime_error, THROW_RUNTIME ) T1( 17, LE, le, std::invalid_argument, THROW_INVALID )
    T2( 18, EQ, eq, std::runtime_error, THROW_RUNTIME ) T2( 19, NE, ne, std::invalid_argument, THROW_INVALID ) T2( 20, GT, gt, MyError, THROW_MINE )
    T2( 21, GE, ge, std::runtime_error, THROW_RUNTIME ) T2( 22, LT, lt, std::invalid_argument, THROW_INVALID ) T2( 23, LE, le, MyError, THROW_MINE )
    A1( 24, EQ, eq ) A1( 25, NE, ne ) A1( 26, GT, gt ) A1( 27, GE, ge )
    A2( 28, EQ, eq ) A2( 29, NE, ne ) A2( 30, GT, gt ) A2( 31, GE, ge )
    default: return;
  }
  if( isAssert && !ASSERTS )
  {
    CHECK( r.effect == NONE && r.text.empty() && g_l == 0 && g_r == 0 && g_m == 0, name, " acts or evaluates its operands in a release build" );
    return;
  }
  verify( r, cond, e, true, m, x, y, 1, name );
}

void plain( Src & s )
{
  bool const c = s.boolean();
  std::string msg = "m" + std::to_string( s.choose( 1000 ) ) + ( s.boolean() ? " with \n newline" : " plain %s" );
  int const n = static_cast< int >( s.choose( 12 ) );
  LOG( s, "macro form " << n << " condition " << c << " message " << msg );
  s.nontrivial();
  Result r;
  auto const cond = [&]() { ++g_l; ++g_r; return c; };
  switch( n )
  {
    case 0: r = observe( [&]() { LVARRAY_ERROR_IF( cond(), M( msg ) ); } ); verify( r, c, ERROR, true, msg, "", "", 1, "ERROR_IF" ); break;
    case 1: r = observe( [&]() { LVARRAY_ERROR( M( msg ) ); } ); verify( r, true, ERROR, true, msg, "", "", 0, "ERROR" ); break;
    case 2: r = observe( [&]() { LVARRAY_THROW_IF( cond(), M( msg ), MyError ); } ); verify( r, c, THROW_MINE, true, msg, "", "", 1, "THROW_IF" ); break;
    case 3: r = observe( [&]() { LVARRAY_THROW_IF( cond(), M( msg ), std::invalid_argument ); } ); verify( r, c, THROW_INVALID, true, msg, "", "", 1, "THROW_IF" ); break;
    case 4: r = observe( [&]() { LVARRAY_WARNING_IF( cond(), M( msg ) ); } ); verify( r, c, NONE, true, msg, "", "", 1, "WARNING_IF" ); CHECK_EQ( has( r.text, "WARNING" ), c ); break;
    case 5: r = observe( [&]() { LVARRAY_WARNING( M( msg ) ); } ); CHECK( r.effect == NONE && has( r.text, msg ) && has( r.text, "WARNING" ) ); break;
    case 6: r = observe( [&]() { LVARRAY_INFO_IF( cond(), M( msg ) ); } ); verify( r, c, NONE, true, msg, "", "", 1, "INFO_IF" ); CHECK_EQ( has( r.text, "INFO" ), c ); break;
    case 7: r = observe( [&]() { LVARRAY_INFO( M( msg ) ); } ); CHECK( r.effect == NONE && has( r.text, msg ) && has( r.text, "INFO" ) ); break;
    case 8:
    case 9:
    {
      if( n == 8 ) r = observe( [&]() { LVARRAY_ASSERT_MSG( cond(), M( msg ) ); } );
      else r = observe( [&]() { LVARRAY_ASSERT( cond() ); } );
      if( ASSERTS ) verify( r, !c, ERROR, n == 8, msg, "", "", 1, "ASSERT" );
      else CHECK( r.effect == NONE && r.text.empty() && g_l == 0 && g_m == 0, "ASSERT acts in a release build" );
      break;
    }
    case 10: r = observe( [&]() { if( c ) LVARRAY_WARNING( M( msg ) ); else LVARRAY_INFO( M( msg ) ); } ); CHECK_EQ( has( r.text, "WARNING" ), c ); CHECK_EQ( has( r.text, "INFO" ), !c ); break;
    case 11: // Streams of several parts are a valid message.
      r = observe( [&]() { LVARRAY_ERROR_IF( cond(), "part one " << 17 << " " << M( msg ) ); } ); verify( r, c, ERROR, true, "part one 17 " + msg, "", "", 1, "ERROR_IF" ); break;
    default: // The location of the call is part of the report.
      r = observe( [&]() { LVARRAY_ERROR_IF( cond(), M( msg ) ); } ); if( c ) CHECK( has( r.text, "h_macros.cpp" ), "the report lost the location: ", r.text );
  }
}

template< typename T > void pairOf( Src & s, char const * type )
{
  T a = s.integer< T >(), b = s.integer< T >();
  std::size_t const k = s.weighted( { 2, 3, 2, 1 } );
  if( k == 1 ) b = a;
  else if( k == 2 ) b = static_cast< T >( a == std::numeric_limits< T >::max() ? a - 1 : a + 1 );
  else if( k == 3 ) { b = a; a = static_cast< T >( a == std::numeric_limits< T >::max() ? a - 1 : a + 1 ); }
  s.nontrivial();
  comparisons< T >( s, a, b, "msg" + std::to_string( s.choose( 999 ) ), type );
}
void compare( Src & s )
{
  switch( s.choose( 7 ) )
  {
    case 0: pairOf< int >( s, "int" ); break;
    case 1: pairOf< long >( s, "long" ); break;
    case 2: pairOf< unsigned >( s, "unsigned" ); break;
    case 3: pairOf< unsigned long long >( s, "unsigned long long" ); break;
    case 4: pairOf< short >( s, "short" ); break;
    case 5:
    {
      double a = s.real(), b = s.boolean( 0.3 ) ? a : s.real();
      s.nontrivial(); comparisons< double >( s, a, b, "dbl msg", "double" ); break;
    }
    case 6:
    {
      std::string a( s.length( 4 ), 'a' ), b = s.boolean( 0.3 ) ? a : std::string( s.length( 4 ), static_cast< char >( 'a' + s.choose( 1 ) ) );
      s.nontrivial(); comparisons< std::string >( s, a + "x", b + "x", "str msg", "string" ); break;
    }
    default:
    {
      int const arr[ 2 ] = { 0, 0 };
      int const * const a = arr + s.choose( 1 ); int const * const b = arr + s.choose( 1 );
      s.nontrivial(); comparisons< int const * >( s, a, b, "ptr msg", "pointer" );
    }
  }
}
Registrar r1( "comparison_macros", compare, 24000, "one comparison macro on one operand pair (a third of the pairs equal or adjacent); all count" );
Registrar r2( "plain_macros", plain, 8000, "one condition or unconditional macro; all count" );
}
