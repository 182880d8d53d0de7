// C26: text output and input of arrays.
#include "ragged.hpp"
#include "SortedArray.hpp"
#include "output.hpp"
#include "input.hpp"
#include <iomanip>
using namespace pbt;
using namespace lv;

template< typename T > T genValue( Src & s )
{
  if constexpr( std::is_same< T, std::string >::value )
  {
    static char const alphabet[] = "abcxyzXYZ0123456789.-+_/:;'\"\\#()[]<>=*&%$!?~^|@";
    std::string r( 1 + s.length( 12 ), 'a' );
    for( char & c : r ) c = alphabet[ s.range< int >( 0, sizeof( alphabet ) - 2 ) ];
    return r;
  }
  else if constexpr( std::is_floating_point< T >::value )
  {
    T const v = T( s.real( false ) );
    return std::fabs( v ) < std::numeric_limits< T >::min() ? T( 0 ) : v;
  }
  else return s.integer< T >();
}

/// One value, or nothing if text is not exactly one.
template< typename T > std::optional< T > parseValue( std::string const & text )
{
  std::istringstream in( text );
  T v {};
  if( !( in >> v ) ) return std::nullopt;
  if( in.peek() != std::istringstream::traits_type::eof() ) return std::nullopt;
  return v;
}

/// Reference reader of the documented format. Spaces are ignored except that they may not separate values.
template< typename T, int N > struct Reader
{
  std::string t;
  std::size_t at = 0;
  Ix< N > dims {};
  bool set[ N ] = {};
  std::vector< T > values;
  bool emptyArray = false;
  bool read( std::string const & text )
  {
    // A space inside a value would separate two values.
    std::size_t i = 0;
    auto special = []( char c ) { return c == '{' || c == '}' || c == ','; };
    while( i < text.size() )
    {
      if( text[ i ] != ' ' ) { t += text[ i++ ]; continue; }
      std::size_t j = i;
      while( j < text.size() && text[ j ] == ' ' ) ++j;
      if( i > 0 && j < text.size() && !special( text[ i - 1 ] ) && !special( text[ j ] ) ) return false;
      i = j;
    }
    if( t == "{}" ) { emptyArray = true; return true; }
    return level< 0 >() && at == t.size();
  }
  bool eat( char c ) { if( at < t.size() && t[ at ] == c ) { ++at; return true; } return false; }
  template< int L > bool level()
  {
    if constexpr( L == N )
    {
      std::size_t const b = at;
      while( at < t.size() && t[ at ] != '{' && t[ at ] != '}' && t[ at ] != ',' ) ++at;
      auto const v = parseValue< T >( t.substr( b, at - b ) );
      if( !v ) return false;
      values.push_back( *v );
      return true;
    }
    else
    {
      if( !eat( '{' ) ) return false;
      long n = 0;
      do { if( !level< L + 1 >() ) return false; ++n; } while( eat( ',' ) );
      if( !eat( '}' ) ) return false;
      if( set[ L ] && dims[ L ] != n ) return false;
      set[ L ] = true; dims[ L ] = n;
      return true;
    }
  }
};

template< typename T > bool same( T const & a, T const & b ) { return a == b; }

template< typename T, int N, typename PERM, typename INDEX, typename A >
void compare( A const & a, Ix< N > const & d, std::vector< T > const & values, std::string const & text )
{
  for( int k = 0; k < N; ++k ) CHECK_EQ( long( a.size( k ) ), d[ k ], "dimension ", k, " of ", text );
  std::size_t n = 0;
  forAll< N >( d, [&]( Ix< N > const & i ) { CHECK( same( T( at< N >( a, i ) ), values[ n ] ), "value ", at< N >( a, i ), " instead of ", values[ n ], " at ", str< N >( i ), " of ", text ); ++n; } );
}

/// Something already in the array.
template< int N, typename T, typename A > void prefill( Src & s, A & a )
{
  if( s.boolean( 0.4 ) ) return;
  long const f = s.large( 30, 0.02 );
  Ix< N > const d = genDims< N >( s, 4 * f, 60 * f );
  resizeTo( a, d );
  for( T & x : a ) x = T();
}

std::string spaced( Src & s, std::string const & t )
{
  // Spaces may be added next to a delimiter and at both ends.
  std::string r;
  int const style = s.range( 0, 3 );
  if( style == 0 ) return t;
  auto pad = [&]() { return std::string( style == 1 ? 1 : s.length( 3 ), ' ' ); };
  for( std::size_t i = 0; i <= t.size(); ++i )
  {
    auto special = [&]( std::size_t k ) { return k >= t.size() || t[ k ] == '{' || t[ k ] == '}' || t[ k ] == ',' || t[ k ] == ' '; };
    if( i == 0 || special( i ) || special( i - 1 ) ) r += pad();
    if( i < t.size() ) { if( t[ i ] == ' ' && style == 3 ) continue; r += t[ i ]; }
  }
  return r;
}

template< typename T, int N, typename PERM, typename INDEX >
void roundTrip( Src & s )
{
  long const f = s.large( 10, 0.02 );
  Ix< N > d = genDims< N >( s, f * ( N == 1 ? 30 : 5 ), 200 * f );
  for( long & x : d ) x = std::max( x, 1L );
  std::vector< T > values;
  LvArray::Array< T, N, PERM, INDEX, MallocBuffer > a; resizeTo( a, d );
  forAll< N >( d, [&]( Ix< N > const & i ) { values.push_back( genValue< T >( s ) ); at< N >( a, i ) = values.back(); } );
  std::ostringstream out;
  out << std::setprecision( std::numeric_limits< T >::max_digits10 );
  switch( s.range( 0, 3 ) )
  {
    case 0: out << a; break;
    case 1: out << a.toView(); break;
    case 2: out << a.toViewConst(); break;
    default: out << a.toSliceConst();
  }
  LOG( s, out.str() );
  // The text, independently.
  std::ostringstream want; want << std::setprecision( std::numeric_limits< T >::max_digits10 );
  {
    std::size_t n = 0;
    std::function< void( int ) > put = [&]( int k )
    {
      if( k == N ) { want << values[ n++ ]; return; }
      want << "{ ";
      for( long i = 0; i < d[ k ]; ++i ) { if( i ) want << ", "; put( k + 1 ); }
      want << " }";
    };
    put( 0 );
  }
  CHECK_EQ( out.str(), want.str() );
  std::string const text = spaced( s, out.str() );
  LOG( s, "reading " << text );
  LvArray::Array< T, N, PERM, INDEX, MallocBuffer > b; prefill< N, T >( s, b );
  LvArray::input::stringToArray( b, text );
  compare< T, N, PERM, INDEX >( b, d, values, text );
  // Any layout will do.
  LvArray::Array< T, N, camp::make_idx_seq_t< N >, int, MallocBuffer > c; prefill< N, T >( s, c );
  LvArray::input::stringToArray( c, text );
  compare< T, N, camp::make_idx_seq_t< N >, int >( c, d, values, text );
  // An empty array.
  std::string const e = spaced( s, "{}" );
  LvArray::input::stringToArray( c, e );
  CHECK_EQ( long( c.size() ), 0L, "after reading ", e );
  if( values.size() > 3 ) s.nontrivial();
}

/// Arbitrary and slightly wrong text: accepted exactly when the reference reader accepts it.
template< typename T, int N, typename PERM, typename INDEX >
void anyText( Src & s )
{
  std::string t;
  static char const alphabet[] = "{}, 10{},2.-ax{},3\te";
  int const nA = sizeof( alphabet ) - 2;
  auto randomChar = [&]() { return s.boolean( 0.02 ) ? char( s.range( 0, 255 ) ) : alphabet[ s.range( 0, nA ) ]; };
  if( s.boolean( 0.2 ) ) for( std::size_t n = s.length( 30 ); n > 0; --n ) t += randomChar();
  else
  {
    // A well formed text, usually of the right depth, then edits.
    int const depth = s.boolean( 0.85 ) ? N : s.range( 1, 5 );
    std::vector< long > d;
    for( int k = 0; k < depth; ++k ) d.push_back( s.range( 1, depth > 2 ? 2 : 4 ) );
    std::function< void( int ) > put = [&]( int k )
    {
      if( k == depth )
      {
        if constexpr( std::is_same< T, std::string >::value ) t += genValue< T >( s );
        else switch( s.weighted( { 10, 2, 1, 1 } ) )
        {
          case 0: t += std::to_string( s.range( 0, 99 ) ); break;
          case 1: { std::ostringstream o; o << std::setprecision( 17 ) << genValue< T >( s ); t += o.str(); break; }
          case 2: t += std::to_string( s.range( 0, 99 ) ) + "." + std::to_string( s.range( 0, 99 ) ); break;
          default: { static char const * const odd[] = { "99999999999999999999", "1e5", "1e999", "0x10", "+3", "-", "1e", "nan", "inf", "--1", "1-", "2147483648", "007", "1_0" }; t += odd[ s.range( 0, 13 ) ]; }
        }
        return;
      }
      t += '{';
      long n = d[ k ];
      if( s.boolean( 0.05 ) ) n = s.range( 0, 4 );
      for( long i = 0; i < n; ++i ) { if( i ) t += ','; put( k + 1 ); }
      t += '}';
    };
    put( 0 );
    t = spaced( s, t );
    for( int e = s.weighted( { 2, 5, 2, 1 } ); e > 0; --e )
    {
      std::size_t const at = s.range< std::size_t >( 0, t.size() );
      switch( s.range( 0, 4 ) )
      {
        case 0: t.insert( at, 1, randomChar() ); break;
        case 1: if( at < t.size() ) t.erase( at, 1 ); break;
        case 2: if( at < t.size() ) t[ at ] = randomChar(); break;
        case 3: { std::size_t const n = s.range< std::size_t >( 0, std::min< std::size_t >( 12, t.size() - at ) ); std::string const piece = t.substr( at, n ); t.insert( s.range< std::size_t >( 0, t.size() ), piece ); break; }
        default: { std::size_t const n = s.range< std::size_t >( 0, std::min< std::size_t >( 12, t.size() - at ) ); t.erase( at, n ); }
      }
    }
  }
  LOG( s, "text '" << t << "'" );
  // Negative numbers read into an unsigned type follow the standard library and are not judged; white space other than ' ' neither.
  bool const unclear = t.find_first_of( "\t\n\r\v\f" ) != std::string::npos || ( std::is_unsigned< T >::value && t.find( '-' ) != std::string::npos );
  Reader< T, N > ref;
  bool const good = ref.read( t );
  LvArray::Array< T, N, PERM, INDEX, MallocBuffer > a; prefill< N, T >( s, a );
  bool e = false;
  try { e = reportsError( [&]() { LvArray::input::stringToArray( a, t ); } ); }
  catch( std::exception const & x ) { CHECK( false, "the exception ", x.what(), " instead of an error report for ", t ); }
  if( unclear ) { s.label( "not judged" ); return; }
  CHECK_EQ( e, !good, "error report for '", t, "'" );
  if( good && !ref.emptyArray ) compare< T, N, PERM, INDEX >( a, ref.dims, ref.values, t );
  if( good && ref.emptyArray ) CHECK_EQ( long( a.size() ), 0L );
  s.label( good ? "accepted" : "rejected" );
  if( t.size() > 3 ) s.nontrivial();
}

/// Text without white space and without a comma before a closing brace.
std::string bare( std::string const & t )
{
  std::string r;
  for( char c : t ) { if( c == ' ' || c == '\t' || c == '\n' ) continue; if( c == '}' && !r.empty() && r.back() == ',' ) r.pop_back(); r += c; }
  return r;
}
template< typename F > std::string listed( long n, F && f ) { std::ostringstream o; o << "{"; for( long i = 0; i < n; ++i ) o << ( i ? "," : "" ) << f( i ); o << "}"; return o.str(); }

template< typename T, typename INDEX >
void containers( Src & s )
{
  int total = 0;
  std::size_t n = 0;
  while( s.more( n, 5, 2 ) )
  {
    Span sp( s ); ++n;
    std::ostringstream out; std::string want;
    switch( s.range( 0, 5 ) )
    {
      case 0:
      {
        std::set< T > m; LvArray::SortedArray< T, INDEX, MallocBuffer > a;
        for( std::size_t k = s.length( 20 ); k > 0; --k ) { T const v = T( s.range( 0, 100 ) ); m.insert( v ); a.insert( v ); }
        if( s.boolean() ) out << a; else out << a.toViewConst();
        std::vector< T > v( m.begin(), m.end() );
        want = listed( v.size(), [&]( long i ) { return v[ i ]; } );
        total += v.size();
        break;
      }
      case 1:
      {
        LvArray::ArrayOfArrays< T, INDEX, MallocBuffer > a; std::vector< std::vector< T > > m( s.length( 6 ) );
        for( auto & r : m ) { a.appendArray( 0 ); for( std::size_t k = s.length( 5 ); k > 0; --k ) { r.push_back( T( s.range( 0, 100 ) ) ); a.emplaceBack( a.size() - 1, r.back() ); ++total; } }
        for( std::size_t i = 0; i < m.size(); ++i ) if( s.boolean() ) a.setCapacityOfArray( i, m[ i ].size() + s.range( 0, 3 ) );
        if( s.boolean() ) out << a; else out << a.toViewConst();
        want = "{"; for( std::size_t i = 0; i < m.size(); ++i ) want += std::to_string( i ) + listed( m[ i ].size(), [&]( long j ) { return m[ i ][ j ]; } ); want += "}";
        break;
      }
      case 2: case 3:
      {
        long const rows = s.length( 5 ), cols = s.range( 1, 8 );
        LvArray::CRSMatrix< T, int, INDEX, MallocBuffer > a( rows, cols, 2 ); std::vector< std::map< int, T > > m( rows );
        for( long r = 0; r < rows; ++r ) for( int c = 0; c < cols; ++c ) if( s.boolean( 0.4 ) ) { T const v = T( s.range( 0, 50 ) ); m[ r ][ c ] = v; a.insertNonZero( r, c, v ); ++total; }
        out << a.toViewConst();
        want = "{";
        for( long r = 0; r < rows; ++r )
        {
          std::vector< int > c; std::vector< T > v; for( auto const & p : m[ r ] ) { c.push_back( p.first ); v.push_back( p.second ); }
          want += "row" + std::to_string( r ) + "columns:" + listed( c.size(), [&]( long i ) { return c[ i ]; } ) + "values:" + listed( v.size(), [&]( long i ) { return v[ i ]; } );
        }
        want += "}";
        break;
      }
      case 4:
      {
        using LvArray::operator<<;
        T a[ 3 ], b[ 2 ][ 3 ];
        for( int i = 0; i < 3; ++i ) { a[ i ] = T( s.range( 0, 99 ) ); for( int j = 0; j < 2; ++j ) b[ j ][ i ] = T( s.range( 0, 99 ) ); }
        out << a << b;
        want = listed( 3, [&]( long i ) { return a[ i ]; } ) + listed( 2, [&]( long j ) { return listed( 3, [&]( long i ) { return b[ j ][ i ]; } ); } );
        total += 2;
        break;
      }
      default:
      {
        // Empty dimensions.
        LvArray::Array< T, 2, RAJA::PERM_JI, INDEX, MallocBuffer > a( s.range( 0, 3 ), 0 );
        out << a;
        want = listed( a.size( 0 ), [&]( long ) { return "{}"; } );
      }
    }
    LOG( s, out.str() );
    CHECK_EQ( bare( out.str() ), want );
  }
  if( total > 5 ) s.nontrivial();
}

/// print() writes to the standard output.
void printed( Src & s )
{
  long const rows = s.length( 5 ), cols = s.range( 1, 8 );
  LvArray::CRSMatrix< double, int, long, MallocBuffer > a( rows, cols, s.range( 0, 3 ) );
  struct E { long r; int c; int v; };
  std::vector< E > m;
  for( long r = 0; r < rows; ++r ) for( int c = 0; c < cols; ++c ) if( s.boolean( 0.4 ) ) { m.push_back( { r, c, s.range( 1, 9 ) } ); a.insertNonZero( r, c, m.back().v ); }
  std::string out;
  CHECK( runExpectingError( [&]() { LvArray::print< RAJA::seq_exec >( a.toViewConst() ); std::fflush( stdout ); }, &out ) == Outcome::COMPLETED, "print failed: ", out );
  std::vector< double > got;
  { std::string x = out; for( char & c : x ) if( !std::strchr( "0123456789.", c ) || !c ) c = ' '; std::istringstream in( x ); double v; while( in >> v ) got.push_back( v ); }
  std::vector< double > want { double( rows ) };
  for( long r = 0; r < rows; ++r ) want.push_back( a.numNonZeros( r ) );
  for( long r = 0; r < rows + 1; ++r ) want.push_back( a.getOffsets()[ r ] );
  std::size_t k = 0;
  for( long r = 0; r < rows; ++r ) { want.push_back( a.numNonZeros( r ) ); for( ; k < m.size() && m[ k ].r == r; ++k ) { want.push_back( r ); want.push_back( m[ k ].c ); want.push_back( m[ k ].v ); } }
  CHECK( got == want, "printed ", got.size(), " numbers instead of ", want.size(), ": ", out );
  if( m.size() > 3 ) s.nontrivial();
}

static char const * const rule1 = "at least four values";
static char const * const rule2 = "a text of more than three characters";
static Registrar a1( "io.round.int1", roundTrip< int, 1, RAJA::PERM_I, int >, 3000, rule1 );
static Registrar a2( "io.round.double2", roundTrip< double, 2, RAJA::PERM_JI, long >, 3000, rule1 );
static Registrar a3( "io.round.string3", roundTrip< std::string, 3, RAJA::PERM_KIJ, int >, 2000, rule1 );
static Registrar a4( "io.round.float4", roundTrip< float, 4, RAJA::PERM_IJKL, long >, 2000, rule1 );
static Registrar a5( "io.round.unsigned2", roundTrip< unsigned short, 2, RAJA::PERM_IJ, long >, 2000, rule1 );
static Registrar a6( "io.round.long5", roundTrip< long, 5, RAJA::PERM_LMKJI, int >, 1000, rule1 );
static Registrar b1( "io.any.int1", anyText< int, 1, RAJA::PERM_I, int >, 20000, rule2 );
static Registrar b2( "io.any.int2", anyText< int, 2, RAJA::PERM_JI, long >, 20000, rule2 );
static Registrar b3( "io.any.double1", anyText< double, 1, RAJA::PERM_I, int >, 15000, rule2 );
static Registrar b4( "io.any.double3", anyText< double, 3, RAJA::PERM_KJI, int >, 15000, rule2 );
static Registrar b5( "io.any.string1", anyText< std::string, 1, RAJA::PERM_I, int >, 10000, rule2 );
static Registrar b6( "io.any.string2", anyText< std::string, 2, RAJA::PERM_IJ, int >, 10000, rule2 );
static Registrar b7( "io.any.short4", anyText< short, 4, RAJA::PERM_IJKL, int >, 10000, rule2 );
static Registrar b8( "io.any.unsigned2", anyText< unsigned, 2, RAJA::PERM_IJ, int >, 10000, rule2 );
static Registrar c1( "io.containers.int", containers< int, long >, 5000, "more than five values listed" );
static Registrar c2( "io.containers.double", containers< double, int >, 5000, "more than five values listed" );
static Registrar c3( "io.print", printed, 300, "more than three entries", false, false );
