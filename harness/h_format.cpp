// C07 byte sizes and demangled names.
#include "system.hpp"
#include "lv.hpp"
#include <typeinfo>
#include <memory>
using namespace pbt;

namespace
{
namespace sys = LvArray::system;

void sizes( Src & s )
{
  std::size_t const b = s.integer< std::size_t >();
  LOG( s, "calculateSize( " << b << " )" );
  if( b ) s.nontrivial();
  int const shift = b >= ( std::size_t( 1 ) << 30 ) ? 30 : b >= ( std::size_t( 1 ) << 20 ) ? 20 : 10;
  std::string const unit = shift == 30 ? "GB" : shift == 20 ? "MB" : "KB";
  s.label( unit );
  std::string const r = sys::calculateSize( b );
  // number with one decimal, a space, the unit
  std::size_t const dot = r.find( '.' );
  CHECK( dot != std::string::npos && r.size() == dot + 5 && r.substr( dot + 2 ) == " " + unit, "calculateSize( ", b, " ) = ", r );
  unsigned __int128 tenths = 0;
  for( std::size_t i = 0; i < dot + 2; ++i ) if( i != dot ) { CHECK( r[ i ] >= '0' && r[ i ] <= '9', "calculateSize( ", b, " ) = ", r ); tenths = tenths * 10 + static_cast< unsigned >( r[ i ] - '0' ); }
  CHECK( dot > 0 && ( r[ 0 ] != '0' || dot == 1 ), "calculateSize( ", b, " ) = ", r );
  // |tenths / 10 - b / 2^shift| <= 0.05 (plus the rounding of b to double).
  __int128 const d = static_cast< __int128 >( tenths << shift ) - static_cast< __int128 >( b ) * 10;
  __int128 const tol = ( __int128( 1 ) << ( shift - 1 ) ) + 10 * ( b >> 52 );
  CHECK( d <= tol && -d <= tol, "calculateSize( ", b, " ) = ", r, " is not the nearest tenth" );
}

/// A random type: its Itanium mangling without substitutions and its demangled spelling.
struct Ty { std::string mangled, text; };
Ty builtin( Src & s )
{
  static std::pair< char const *, char const * > const b[] = { { "i", "int" }, { "d", "double" }, { "c", "char" }, { "l", "long" }, { "j", "unsigned int" }, { "m", "unsigned long" }, { "f", "float" }, { "b", "bool" }, { "x", "long long" },
    { "s", "short" }, { "h", "unsigned char" }, { "y", "unsigned long long" } };
  auto const & p = b[ s.choose( sizeof b / sizeof *b - 1 ) ];
  return { p.first, p.second };
}
std::string ident( Src & s )
{
  std::string r( 1, static_cast< char >( 'a' + s.choose( 25 ) ) );
  for( std::size_t n = s.length( 40 ); n > 0; --n ) { char const c[] = "abcdefghijklmnopqrstuvwxyz_0123456789XYZ"; r += c[ s.choose( sizeof c - 2 ) ]; }
  return r;
}
Ty type( Src & s, int depth );
Ty named( Src & s, int depth )
{
  // Nested name, the last component possibly a template of types.
  std::size_t const n = 1 + s.choose( 3 );
  Ty r;
  for( std::size_t i = 0; i < n; ++i )
  {
    std::string const id = ident( s );
    r.mangled += std::to_string( id.size() ) + id;
    r.text += ( i ? "::" : "" ) + id;
  }
  if( depth > 0 && s.boolean( 0.4 ) )
  {
    r.mangled += "I"; r.text += "<";
    std::size_t const k = 1 + s.choose( 2 );
    for( std::size_t i = 0; i < k; ++i )
    {
      if( s.boolean( 0.3 ) ) { auto const v = s.choose( 1000 ); r.mangled += "Li" + std::to_string( v ) + "E"; r.text += ( i ? ", " : "" ) + std::to_string( v ); }
      else { Ty const t = type( s, depth - 1 ); r.mangled += t.mangled; r.text += ( i ? ", " : "" ) + t.text; }
    }
    r.mangled += "E"; r.text += r.text.back() == '>' ? " >" : ">";
  }
  r.mangled = "N" + r.mangled + "E";
  return r;
}
Ty type( Src & s, int depth )
{
  Ty t = s.boolean( 0.6 ) || depth <= 0 ? builtin( s ) : named( s, depth );
  for( int n = 0; n < 3 && s.boolean( 0.3 ); ++n )
  {
    switch( s.choose( 1 ) )
    {
      case 0: t.mangled = "P" + t.mangled; t.text += "*"; break;
      default: if( t.mangled[ 0 ] != 'K' ) { t.mangled = "K" + t.mangled; t.text += " const"; }
    }
  }
  if( s.boolean( 0.15 ) ) { t.mangled = "R" + t.mangled; t.text += "&"; }
  return t;
}
void names( Src & s )
{
  int const k = static_cast< int >( s.weighted( { 4, 4, 3, 1 } ) );
  if( k == 0 )
  {
    Ty const t = type( s, 3 );
    LOG( s, "demangle( " << t.mangled << " )" );
    s.label( "type" ); s.nontrivial();
    CHECK_EQ( sys::demangle( t.mangled.c_str() ), t.text, "demangle( ", t.mangled, " )" );
  }
  else if( k == 1 )
  {
    // A function: _Z <nested name> <argument types>.
    Ty n; std::size_t const c = 1 + s.choose( 3 );
    for( std::size_t i = 0; i < c; ++i ) { std::string const id = ident( s ); n.mangled += std::to_string( id.size() ) + id; n.text += ( i ? "::" : "" ) + id; }
    std::string m = "_Z" + ( c > 1 ? "N" + n.mangled + "E" : n.mangled ), text = n.text + "(";
    std::size_t const args = s.choose( 4 );
    if( args == 0 ) m += "v";
    for( std::size_t i = 0; i < args; ++i ) { Ty const t = type( s, 2 ); m += t.mangled; text += ( i ? ", " : "" ) + t.text; }
    text += ")";
    LOG( s, "demangle( " << m << " )" );
    s.label( "function" ); s.nontrivial();
    CHECK_EQ( sys::demangle( m.c_str() ), text, "demangle( ", m, " )" );
  }
  else if( k == 2 )
  {
    // Not a mangled name: returned unchanged.
    std::string g = s.boolean() ? "?" : "_Z!";
    for( std::size_t n = s.length( 300 ); n > 0; --n ) g += static_cast< char >( s.range( 33, 255 ) );
    LOG( s, "demangle garbage of length " << g.size() );
    s.label( "not a mangled name" ); s.nontrivial();
    CHECK_EQ( sys::demangle( g.c_str() ), g );
  }
  else { s.label( "null" ); CHECK_EQ( sys::demangle( nullptr ), std::string() ); }
}

struct Base { virtual ~Base() = default; };
namespace inner { template< typename T, int N > struct Derived : Base {}; }
template< typename T > void one( T const & v, std::string const & full )
{
  CHECK_EQ( sys::demangleType< T >(), full );
  CHECK_EQ( sys::demangleType( v ), full );
}
void types( Src & s )
{
  int const k = static_cast< int >( s.choose( 6 ) );
  LOG( s, "demangleType " << k );
  s.nontrivial();
  switch( k )
  {
    case 0: one( 1, "int" ); break;
    case 1: one( 1.0f, "float" ); break;
    case 2: one( static_cast< int const * * >( nullptr ), "int const**" ); break;
    case 3: one( inner::Derived< double, 7 >(), "(anonymous namespace)::inner::Derived<double, 7>" ); break;
    case 4: { std::unique_ptr< Base > p( new inner::Derived< long, 3 > ); CHECK_EQ( sys::demangleType( *p ), std::string( "(anonymous namespace)::inner::Derived<long, 3>" ), "the dynamic type" ); break; }
    case 5: CHECK_EQ( sys::demangleType< void >(), std::string( "void" ) ); break;
    default: CHECK_EQ( sys::demangleType< Base >(), std::string( "(anonymous namespace)::Base" ) );
  }
}
Registrar r1( "calculate_size", sizes, 40000, "non zero sizes, biased to powers of two and their neighbours over all 64 bits" );
Registrar r2( "demangle", names, 20000, "random Itanium manglings of types and functions with their spelling, and strings that are not manglings", true );
Registrar r3( "demangle_type", types, 700, "types with known spelling; all count", true );
}
