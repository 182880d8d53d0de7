// C32: rows added to the debugger's display buffer against a model; the rows displayed for arrays, views and slices.
#include "arr.hpp"
#include "totalview/tv_data_display.h"
#include "totalview/tv_helpers.hpp"
using namespace pbt;
using namespace lv;
extern "C"
{
extern char TV_ttf_data_format_buffer[];
void TV_ttf_pre_display_callback( void );
void TV_ttf_post_display_callback( void );
}
static constexpr std::size_t CAPACITY = 16384;
static std::string row( std::string const & name, std::string const & type, std::size_t value )
{
  char hex[ 40 ]; std::snprintf( hex, sizeof( hex ), "0x%zx", value );
  return name + "\t" + type + "\t" + hex + "\n";
}
static std::string text( Src & s )
{
  static char const * const usual[] = { "", "m_dims", "m_data", "int", "double[3]", "$string", "std::vector< int, std::allocator< int > > *" };
  int const kind = s.range( 0, 9 );
  if( kind < 5 ) return usual[ s.choose( 6 ) ];
  if( kind == 9 ) return std::string( s.range( 0, 3 ) ? s.range( 0, 700 ) : s.range( 0, 20000 ), char( 'a' + s.range( 0, 25 ) ) );
  std::string r; std::size_t n = 0;
  while( s.more( n, 30, 6 ) ) { ++n; int const c = s.range( 0, 40 ); r += c < 26 ? char( 'a' + c ) : c == 38 ? '\n' : c == 39 ? '\t' : c == 40 ? char( s.range( 1, 255 ) ) : char( ' ' + c - 26 ); }
  return r;
}
static std::size_t address( Src & s )
{
  switch( s.range( 0, 5 ) )
  {
    case 0: return s.choose( 20 );
    case 1: return s.choose( ~0ull );
    case 2: return 0x7fff00000000ull + s.choose( 40 );
    case 3: return ( s.choose( 0xffff ) << 32 ) + std::size_t( 0x80000000ull ) + s.choose( 40 ) - 20;
    case 4: { std::size_t const k = s.choose( 63 ); return ( std::size_t( 1 ) << k ) - 1 + s.choose( 2 ); }
    default: { static int const x = 0; return std::size_t( &x ) + s.choose( 1000 ); }
  }
}
static void run( Src & s )
{
  TV_ttf_post_display_callback();
  TV_ttf_pre_display_callback();
  CHECK_EQ( TV_ttf_add_row( "a", "b", nullptr ), int( TV_ttf_ec_ok ), "a row" );
  std::string content = row( "a", "b", 0 );
  bool active = true, first = false; int rows = 1, full = 0, bad = 0;
  std::size_t n = 0;
  int const bulk = s.boolean( 0.2 ) ? s.range( 0, 800 ) : 0;
  auto add = [&]( std::string const & name, std::string const & type, std::size_t value, bool log )
  {
    bool const invalid = ( name + type ).find_first_of( "\n\t" ) != std::string::npos;
    int const r = TV_ttf_add_row( name.c_str(), type.c_str(), reinterpret_cast< void const * >( value ) );
    std::string const line = row( name, type, value );
    if( log ) LOG( s, "row '" << ( line.size() > 100 ? line.substr( 0, 100 ) + "..." : line ) << "' of " << line.size() << " -> " << r );
    if( !active )
    {
      CHECK( r == TV_ttf_ec_not_active || ( invalid && r == TV_ttf_ec_invalid_characters ), "a row without an active display returns ", r );
      ++bad;
    }
    else if( invalid ) { CHECK_EQ( r, int( TV_ttf_ec_invalid_characters ), "invalid characters in '", name, "' '", type, "'" ); ++bad; }
    else
    {
      if( first ) { content.clear(); first = false; }
      if( r == TV_ttf_ec_ok ) { content += line; ++rows; }
      else
      {
        CHECK_EQ( r, int( TV_ttf_ec_buffer_exhausted ), "a row" );
        CHECK( content.size() + line.size() + 1 > CAPACITY, "a row of ", line.size(), " after ", content.size(), " is rejected although there is room" );
        ++full;
      }
    }
    CHECK( content == TV_ttf_data_format_buffer, "the buffer contains ", std::string( TV_ttf_data_format_buffer ).size(), " characters ending in '", std::string( TV_ttf_data_format_buffer ).substr( std::max< long >( 0, long( std::strlen( TV_ttf_data_format_buffer ) ) - 200 ) ),
           "' expected ", content.size(), " ending in '", content.substr( std::max< long >( 0, long( content.size() ) - 200 ) ), "'" );
  };
  while( s.more( n, 60, 12 ) )
  {
    Span sp( s ); ++n;
    int const op = s.range( 0, 15 );
    if( op == 14 ) { LOG( s, "display starts" ); TV_ttf_pre_display_callback(); active = first = true; }
    else if( op == 15 ) { LOG( s, "display ends" ); TV_ttf_post_display_callback(); active = false; }
    else if( op == 13 && bulk )
    {
      std::string const name = text( s ), type = text( s ); LOG( s, bulk << " times" );
      for( int i = 0; i < bulk; ++i ) add( name, type, i, i < 2 );
    }
    else { std::string const name = text( s ), type = text( s ); add( name, type, address( s ), true ); }
    if( op > 13 ) CHECK( content == TV_ttf_data_format_buffer, "the buffer changed without a row" );
  }
  TV_ttf_post_display_callback();
  if( rows > 2 ) s.nontrivial();
  if( full ) s.label( "a row did not fit" );
  if( bad ) s.label( "a row was refused" );
  if( content.size() > CAPACITY - 64 ) s.label( "nearly full" );
}
static Registrar r1( "totalview.rows", run, 20000, "at least two further rows" );

static void results( Src & s )
{
  int const k = s.range( 0, 4 );
  CHECK_EQ( TV_ttf_is_format_result_ok( TV_ttf_format_result( k ) ) != 0, k == TV_ttf_format_ok || k == TV_ttf_format_ok_elide, "result ", k );
  if( k == TV_ttf_format_ok || k == TV_ttf_format_ok_elide ) s.nontrivial();
}
static Registrar r2( "totalview.results", results, 50, "a successful result" );

struct Row { std::string name, type; std::size_t value; };
static std::vector< Row > parse()
{
  std::vector< Row > r; std::istringstream in( TV_ttf_data_format_buffer ); std::string line;
  while( std::getline( in, line ) )
  {
    std::size_t const a = line.find( '\t' ), b = line.rfind( '\t' );
    CHECK( a != std::string::npos && a != b, "row '", line, "'" );
    r.push_back( { line.substr( 0, a ), line.substr( a + 1, b - a - 1 ), std::stoull( line.substr( b + 1 ), nullptr, 16 ) } );
  }
  return r;
}
static std::string const NONE = "-";
template< typename T > std::string typeName();
template<> std::string typeName< int >() { return "int"; }
template<> std::string typeName< long >() { return "long"; }
template<> std::string typeName< double >() { return "double"; }
template<> std::string typeName< float >() { return "float"; }
template<> std::string typeName< char >() { return "char"; }
template<> std::string typeName< unsigned char >() { return "unsigned char"; }
template< typename T > std::string nameOf() { return typeName< std::remove_const_t< T > >(); }

template< typename T, typename I > void formats( Src & s, int n, I const * d )
{
  std::string want = nameOf< T >();
  for( int i = 0; i < n; ++i ) { std::ostringstream o; o << want << "[" << d[ i ] << "]"; want = o.str(); }
  std::string const got = totalview::format< T, I >( n, d );
  CHECK_EQ( got, want, "format" );
}
static void format( Src & s )
{
  long d[ 6 ]; int e[ 6 ];
  int const n = s.range( 0, 6 );
  for( int i = 0; i < 6; ++i ) { d[ i ] = s.integer< long >(); e[ i ] = s.integer< int >(); }
  formats< int >( s, n, d ); formats< double >( s, n, e ); formats< float const >( s, n, d ); formats< char >( s, n, e ); formats< unsigned char >( s, n, d ); formats< long >( s, n, e );
  if( n > 1 ) s.nontrivial();
}
static Registrar r3( "totalview.format", format, 3000, "at least two dimensions" );

/// Every row of a displayed object: the extents and the strides at the address and of the type it says.
template< typename OBJ > void displayed( Src & s, OBJ const & a, char const * what )
{
  constexpr int N = OBJ::NDIM;
  using I = typename OBJ::IndexType;
  using T = typename OBJ::ValueType;
  TV_ttf_pre_display_callback();
  CHECK_EQ( TV_ttf_add_row( "first", "row", nullptr ), 0, what );
  CHECK_EQ( OBJ::TV_ttf_display_type( nullptr ), 0, what, " at null" );
  CHECK_EQ( parse().size(), std::size_t( 1 ), what, " at null adds rows" );
  CHECK_EQ( OBJ::TV_ttf_display_type( &a ), 0, what );
  std::vector< Row > const rows = parse();
  TV_ttf_post_display_callback();
  bool dims = false, strides = false;
  for( std::size_t k = 1; k < rows.size(); ++k )
  {
    Row const & r = rows[ k ];
    if( r.name == "m_dims" || r.name == "m_strides" )
    {
      CHECK_EQ( r.type, nameOf< I >() + "[" + std::to_string( N ) + "]", what, " ", r.name );
      I const * const p = reinterpret_cast< I const * >( r.value );
      bool const d = r.name == "m_dims";
      ( d ? dims : strides ) = true;
      for( int i = 0; i < N; ++i )
      {
        if( d ) CHECK_EQ( p[ i ], a.size( i ), what, " extent ", i );
        else CHECK_EQ( p[ i ], a.strides()[ i ], what, " stride ", i );
      }
    }
    else if( r.name == "m_data" || r.name == "tv(m_data)" )
    {
      std::string want = nameOf< T >();
      for( int i = 0; i < ( r.name == "m_data" ? 1 : N ); ++i ) want += "[" + std::to_string( a.size( i ) ) + "]";
      CHECK_EQ( r.type, want, what, " ", r.name );
      
      CHECK_EQ( r.value, std::size_t( a.data() ), what, " ", r.name );
    }
    else
    {
      CHECK( r.value >= std::size_t( &a ) && r.value < std::size_t( &a ) + sizeof( a ), what, " ", r.name, " is not part of the object" );
      if( r.name == "m_singleParameterResizeIndex" ) { CHECK_EQ( r.type, std::string( "int" ), what ); int const i = *reinterpret_cast< int const * >( r.value ); CHECK( i >= 0 && i < N, what, " ", r.name, " ", i ); }
    }
  }
  CHECK( dims && strides, what, " does not display the extents and the strides" );
}
template< typename T, int N, typename PERM, typename I > void display( Src & s )
{
  LvArray::Array< T, N, PERM, I, LvArray::MallocBuffer > a;
  I d[ N ]; bool empty = false;
  for( int i = 0; i < N; ++i ) { d[ i ] = I( s.range( 0, 5 ) ); empty = empty || d[ i ] == 0; }
  a.resize( N, d );
  LOG( s, "display " << N << " dimensions of " << d[ 0 ] );
  auto const v = a.toView(); auto const c = a.toViewConst();
  displayed( s, a, "Array" ); displayed( s, v, "ArrayView" ); displayed( s, c, "ArrayView of const" );
  if( !empty ) s.nontrivial();
}
#if defined( LVARRAY_BOUNDS_CHECK )
/// A slice is only displayable with bounds checking.
template< typename SLICE > void displayedSlice( SLICE const & a, char const * what, void const * data )
{
  constexpr int N = SLICE::NDIM;
  TV_ttf_pre_display_callback();
  CHECK_EQ( TV_ttf_add_row( "first", "row", nullptr ), 0, what );
  CHECK_EQ( SLICE::TV_ttf_display_type( nullptr ), 0, what );
  CHECK_EQ( SLICE::TV_ttf_display_type( &a ), 0, what );
  std::vector< Row > const rows = parse();
  TV_ttf_post_display_callback();
  using I = typename SLICE::IndexType;
  int seen = 0;
  for( std::size_t k = 1; k < rows.size(); ++k )
  {
    Row const & r = rows[ k ];
    if( r.name == "m_dims" || r.name == "m_strides" )
    {
      ++seen;
      CHECK_EQ( r.type, nameOf< I >() + "[" + std::to_string( N ) + "]", what, " ", r.name );
      I const * const p = reinterpret_cast< I const * >( r.value );
      for( int i = 0; i < N; ++i ) CHECK_EQ( p[ i ], r.name == "m_dims" ? a.size( i ) : a.stride( i ), what, " ", r.name, " ", i );
    }
    else if( r.name == "m_data" || r.name == "tv(m_data)" )
    {
      ++seen;
      std::string want = nameOf< typename SLICE::ValueType >();
      for( int i = 0; i < ( r.name == "m_data" ? 1 : N ); ++i ) want += "[" + std::to_string( a.size( i ) ) + "]";
      CHECK_EQ( r.type, want, what, " ", r.name );
      CHECK_EQ( r.value, std::size_t( data ), what, " ", r.name );
    }
  }
  CHECK( seen >= 3, what, " displays ", seen, " rows" );
}
template< typename T, typename PERM, typename I > void slices( Src & s )
{
  LvArray::Array< T, 3, PERM, I, LvArray::MallocBuffer > a;
  I const d[ 3 ] = { I( s.range( 1, 4 ) ), I( s.range( 1, 4 ) ), I( s.range( 1, 4 ) ) };
  a.resize( 3, d );
  I const i = I( s.range( 0, int( d[ 0 ] ) - 1 ) ), j = I( s.range( 0, int( d[ 1 ] ) - 1 ) );
  LOG( s, "slice " << i << " " << j );
  auto const all = a.toSlice();
  displayedSlice( all, "slice", a.data() );
  auto const one = all[ i ]; displayedSlice( one, "slice of a slice", &a( i, 0, 0 ) );
  auto const two = one[ j ]; displayedSlice( two, "slice of a slice of a slice", &a( i, j, 0 ) );
  auto const k = a.toSliceConst(); auto const kc = k[ i ]; displayedSlice( kc, "slice of const", &a( i, 0, 0 ) );
  s.nontrivial();
}
#endif
static void displays( Src & s )
{
  switch( s.range( 0, 5 ) )
  {
    case 0: display< double, 1, RAJA::PERM_I, int >( s ); break;
    case 1: display< int, 2, RAJA::PERM_IJ, long >( s ); break;
    case 2: display< float, 2, RAJA::PERM_JI, int >( s ); break;
    case 3: display< char, 3, RAJA::PERM_KIJ, std::ptrdiff_t >( s ); break;
#if defined( LVARRAY_BOUNDS_CHECK )
    case 4: slices< double, RAJA::PERM_IJK, int >( s ); break;
    default: slices< int, RAJA::PERM_KJI, std::ptrdiff_t >( s );
#else
    default: display< long, 4, RAJA::PERM_IJKL, int >( s );
#endif
  }
}
static Registrar r4( "totalview.displays", displays, 3000, "an object that is not empty" );
