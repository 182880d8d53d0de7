// C33: type manipulation helpers. Every helper is instantiated over a table of compile time inputs; cases pick entries of the
// tables and run time values and compare with definitions computed at run time.
#include "pbt.hpp"
#include "lv.hpp"
#include "typeManipulation.hpp"
#include <list>
#include <map>
#include <set>
#include <unordered_map>
using namespace pbt;
using namespace lv;
namespace tman = LvArray::typeManipulation;
using camp::idx_t;

// ---------------------------------------------------------------------------------------------------- index sequences
struct Perm { std::vector< long > seq, asArray; bool valid; long dim, arraySize, strideOne; };
template< idx_t... I > constexpr bool lastInRange( camp::idx_seq< I... > )
{
  idx_t const v[] = { I... };
  return v[ sizeof...( I ) - 1 ] >= 0 && v[ sizeof...( I ) - 1 ] < idx_t( sizeof...( I ) );
}
template< idx_t... I > void fill( Perm & p, camp::idx_seq< I... > s )
{
  p.seq = { I... };
  p.dim = tman::getDimension( s );
  p.valid = tman::isValidPermutation( s );
  constexpr bool inConstant = tman::isValidPermutation( camp::idx_seq< I... > {} );
  CHECK_EQ( p.valid, inConstant, "isValidPermutation at compile time" );
  constexpr tman::CArray< idx_t, sizeof...( I ) > a = tman::asArray( camp::idx_seq< I... > {} );
  auto b = tman::asArray( s );
  p.arraySize = b.size();
  for( long i = 0; i < long( sizeof...( I ) ); ++i ) { p.asArray.push_back( a[ i ] ); CHECK_EQ( a[ i ], b[ i ], "asArray at compile time" ); }
  if constexpr( lastInRange( camp::idx_seq< I... > {} ) ) { constexpr idx_t one = tman::getStrideOneDimension( camp::idx_seq< I... > {} ); p.strideOne = one; CHECK_EQ( one, tman::getStrideOneDimension( s ), "getStrideOneDimension" ); }
  else p.strideOne = -1;
}
/// Sequence number K of N digits, each one of BASE values from LOW.
template< long N, long BASE, long LOW, long K, long... D > struct Digits : Digits< N - 1, BASE, LOW, K / BASE, K % BASE + LOW, D... > {};
template< long BASE, long LOW, long K, long... D > struct Digits< 0, BASE, LOW, K, D... > { using type = camp::idx_seq< D... >; };
using Fill = void ( * )( Perm & );
template< typename SEQ > void fillOne( Perm & p ) { fill( p, SEQ {} ); }
template< long N, long BASE, long LOW, std::size_t... K > void addAll( std::vector< Fill > & t, std::index_sequence< K... > )
{ ( t.push_back( &fillOne< typename Digits< N, BASE, LOW, long( K ) >::type > ), ... ); }
/// Permutation number K of N, by the factorial number system; SKEW 1 repeats an element.
constexpr long fact( long n ) { return n < 2 ? 1 : n * fact( n - 1 ); }
template< long N, long K, bool REPEAT > constexpr std::array< long, N > nth()
{
  std::array< long, N > r {}; bool used[ N ] {}; long k = K;
  for( long i = 0; i < N; ++i )
  {
    long d = k / fact( N - 1 - i ); k %= fact( N - 1 - i );
    for( long j = 0; j < N; ++j ) if( !used[ j ] && d-- == 0 ) { used[ j ] = true; r[ i ] = j; break; }
  }
  if( REPEAT ) r[ K % N ] = r[ ( K + 1 ) % N ];
  return r;
}
template< long N, long K, bool REPEAT, std::size_t... I > auto nthSeq( std::index_sequence< I... > ) { constexpr auto a = nth< N, K, REPEAT >(); return camp::idx_seq< a[ I ]... > {}; }
template< long N, std::size_t... K > void addPerms( std::vector< Fill > & t, std::index_sequence< K... > )
{
  ( t.push_back( &fillOne< decltype( nthSeq< N, long( K ), false >( std::make_index_sequence< N > {} ) ) > ), ... );
  ( t.push_back( &fillOne< decltype( nthSeq< N, long( K ), true >( std::make_index_sequence< N > {} ) ) > ), ... );
}
static std::vector< Fill > const & sequences()
{
  static std::vector< Fill > const all = []()
  {
    std::vector< Fill > t;
    addAll< 1, 6, -2 >( t, std::make_index_sequence< 6 > {} );
    addAll< 2, 6, -2 >( t, std::make_index_sequence< 36 > {} );
    addAll< 3, 6, -2 >( t, std::make_index_sequence< 216 > {} );
    addAll< 4, 4, 0 >( t, std::make_index_sequence< 256 > {} );
    addPerms< 4 >( t, std::make_index_sequence< 24 > {} );
    addPerms< 5 >( t, std::make_index_sequence< 120 > {} );
    t.push_back( &fillOne< camp::idx_seq< 1, 2, 3, 4, 5 > > ); t.push_back( &fillOne< camp::idx_seq< 5, 4, 3, 2, 1, 0 > > ); t.push_back( &fillOne< camp::idx_seq< 0, 1, 2, 3, 4, 4 > > );
    return t;
  }();
  return all;
}
static void permutations( Src & s )
{
  Perm p {};
  sequences()[ s.choose( sequences().size() - 1 ) ]( p );
  long const n = long( p.seq.size() );
  std::string text; for( long x : p.seq ) text += std::to_string( x ) + " ";
  LOG( s, "sequence " << text );
  std::vector< long > sorted = p.seq; std::sort( sorted.begin(), sorted.end() );
  bool valid = true; for( long i = 0; i < n; ++i ) valid = valid && sorted[ i ] == i;
  CHECK_EQ( p.valid, valid, "isValidPermutation of ", text );
  CHECK_EQ( p.dim, n, "getDimension of ", text );
  CHECK_EQ( p.arraySize, n, "size of asArray of ", text );
  CHECK( p.asArray == p.seq, "asArray of ", text );
  if( p.strideOne >= 0 ) CHECK_EQ( p.strideOne, p.seq.back(), "getStrideOneDimension of ", text );
  s.label( valid ? "a permutation" : "not a permutation" );
  if( n > 1 ) s.nontrivial();
}
static Registrar r1( "types.permutations", permutations, 3000, "at least two dimensions" );

// ---------------------------------------------------------------------------------------------------- packs of conditions
struct All { std::vector< bool > pack; bool all, allT; };
template< bool B > struct Cond { static constexpr bool value = B; };
template< int N, int K, bool... B > void conditions( All & r )
{
  if constexpr( N > 0 ) conditions< N - 1, K / 2, ( K % 2 != 0 ), B... >( r );
  else { r.pack = { B... }; r.all = tman::all_of< B... >::value; r.allT = tman::all_of_t< Cond< B >... >::value; }
}
template< int N, std::size_t... K > void addConditions( std::vector< void ( * )( All & ) > & t, std::index_sequence< K... > ) { ( t.push_back( &conditions< N, int( K ) > ), ... ); }
static void packs( Src & s )
{
  static auto const table = []()
  {
    std::vector< void ( * )( All & ) > t;
    addConditions< 0 >( t, std::make_index_sequence< 1 > {} ); addConditions< 1 >( t, std::make_index_sequence< 2 > {} ); addConditions< 2 >( t, std::make_index_sequence< 4 > {} );
    addConditions< 3 >( t, std::make_index_sequence< 8 > {} ); addConditions< 4 >( t, std::make_index_sequence< 16 > {} ); addConditions< 5 >( t, std::make_index_sequence< 32 > {} );
    addConditions< 6 >( t, std::make_index_sequence< 64 > {} );
    return t;
  }();
  All r {};
  table[ s.choose( table.size() - 1 ) ]( r );
  std::string text; bool all = true; for( bool b : r.pack ) { text += b ? '1' : '0'; all = all && b; }
  LOG( s, "pack " << text );
  CHECK_EQ( r.all, all, "all_of ", text );
  CHECK_EQ( r.allT, all, "all_of_t ", text );
  if( r.pack.size() > 1 ) s.nontrivial();
}
static Registrar r2( "types.packs", packs, 800, "at least two conditions" );

// ---------------------------------------------------------------------------------------------------- arguments
struct MoveOnly { long v; explicit MoveOnly( long x ): v( x ) {} MoveOnly( MoveOnly const & ) = delete; MoveOnly( MoveOnly && o ): v( o.v ) { o.v = -1; } };
struct Visitor
{
  std::vector< std::pair< void const *, std::string > > seen;
  int calls = 0;
  template< typename T > void note( T const & x, char kind, long v ) { ++calls; seen.push_back( { &x, kind + std::to_string( v ) } ); }
  void operator()( long & x ) { note( x, 'i', x ); x += 7; }
  void operator()( std::string & x ) { note( x, 's', long( x.size() ) ); x += "x"; }
  void operator()( MoveOnly & x ) { note( x, 'm', x.v ); ++x.v; }
  void operator()( double const & x ) { note( x, 'd', long( x ) ); }
};
struct Pool { long i[ 6 ]; std::string str[ 6 ]; std::vector< MoveOnly > m; double d[ 6 ]; };
/// Kinds of arguments are chosen one after the other; the last step makes the call.
template< int DEPTH, typename... A > void withArgs( Src & s, Pool & p, Visitor & v, std::vector< int > & kinds, int n, A && ... a )
{
  int const at = sizeof...( A );
  if( at == n || DEPTH == 0 ) { if( kinds.size() % 2 ) tman::forEachArg( v, std::forward< A >( a )... ); else { Visitor & w = v; tman::forEachArg( std::reference_wrapper< Visitor >( w ), std::forward< A >( a )... ); } return; }
  if constexpr( DEPTH > 0 )
  {
    int const k = s.range( 0, 3 ); kinds.push_back( k );
    switch( k )
    {
      case 0: withArgs< DEPTH - 1 >( s, p, v, kinds, n, std::forward< A >( a )..., p.i[ at ] ); break;
      case 1: withArgs< DEPTH - 1 >( s, p, v, kinds, n, std::forward< A >( a )..., std::move( p.str[ at ] ) ); break;
      case 2: withArgs< DEPTH - 1 >( s, p, v, kinds, n, std::forward< A >( a )..., std::move( p.m[ at ] ) ); break;
      default: { double const & c = p.d[ at ]; withArgs< DEPTH - 1 >( s, p, v, kinds, n, std::forward< A >( a )..., c ); }
    }
  }
}
static void arguments( Src & s )
{
  Pool p;
  for( int i = 0; i < 6; ++i ) { p.i[ i ] = s.range( 0, 100 ); p.str[ i ] = std::string( s.range( 0, 40 ), 'a' ); p.m.emplace_back( s.range( 0, 100 ) ); p.d[ i ] = s.range( 0, 50 ); }
  p.m.reserve( 6 );
  std::vector< std::pair< void const *, std::string > > want; std::vector< int > kinds; Visitor v;
  long i0[ 6 ], m0[ 6 ]; std::size_t s0[ 6 ];
  for( int i = 0; i < 6; ++i ) { i0[ i ] = p.i[ i ]; m0[ i ] = p.m[ i ].v; s0[ i ] = p.str[ i ].size(); }
  int const n = s.range( 0, 5 );
  withArgs< 5 >( s, p, v, kinds, n );
  for( int i = 0; i < n; ++i )
  {
    if( kinds[ i ] == 0 ) want.push_back( { &p.i[ i ], "i" + std::to_string( i0[ i ] ) } );
    if( kinds[ i ] == 1 ) want.push_back( { &p.str[ i ], "s" + std::to_string( s0[ i ] ) } );
    if( kinds[ i ] == 2 ) want.push_back( { &p.m[ i ], "m" + std::to_string( m0[ i ] ) } );
    if( kinds[ i ] == 3 ) want.push_back( { &p.d[ i ], "d" + std::to_string( long( p.d[ i ] ) ) } );
    CHECK_EQ( p.i[ i ], i0[ i ] + ( kinds[ i ] == 0 ? 7 : 0 ), "argument ", i );
    CHECK_EQ( p.m[ i ].v, m0[ i ] + ( kinds[ i ] == 2 ? 1 : 0 ), "argument ", i );
    CHECK_EQ( p.str[ i ].size(), s0[ i ] + ( kinds[ i ] == 1 ? 1 : 0 ), "argument ", i );
  }
  std::string text; for( auto & w : v.seen ) text += w.second + " ";
  LOG( s, n << " arguments: " << text );
  CHECK_EQ( v.calls, n, "calls" );
  CHECK( v.seen == want, "forEachArg visited ", text );
  if( n > 1 ) s.nontrivial();
}
static Registrar r3( "types.arguments", arguments, 4000, "at least two arguments" );

// ---------------------------------------------------------------------------------------------------- sizes of values
template< int N > struct Sized { char c[ N ]; };
struct Convert { int to, from, index; long maxIndex; bool bits32; long long ( *call )( long long, bool & ); };
template< typename T, typename U, typename I > long long convert( long long n, bool & error )
{
  I r {};
  error = reportsError( [&]() { r = tman::convertSize< T, U >( I( n ) ); } );
  return static_cast< long long >( r );
}
template< typename T, typename U > void addConvert( std::vector< Convert > & t )
{
  if constexpr( sizeof( T ) % sizeof( U ) == 0 || sizeof( U ) % sizeof( T ) == 0 )
  {
    t.push_back( { sizeof( T ), sizeof( U ), 0, std::numeric_limits< int >::max(), true, &convert< T, U, int > } );
    t.push_back( { sizeof( T ), sizeof( U ), 1, std::numeric_limits< long >::max(), false, &convert< T, U, std::ptrdiff_t > } );
    t.push_back( { sizeof( T ), sizeof( U ), 2, std::numeric_limits< long >::max(), false, &convert< T, U, std::size_t > } );
    t.push_back( { sizeof( T ), sizeof( U ), 3, long( std::numeric_limits< unsigned >::max() ), true, &convert< T, U, unsigned > } );
  }
}
template< typename T > void addConverts( std::vector< Convert > & t )
{ addConvert< T, char >( t ); addConvert< T, short >( t ); addConvert< T, Sized< 3 > >( t ); addConvert< T, int >( t ); addConvert< T, Sized< 6 > >( t ); addConvert< T, double >( t ); addConvert< T, Sized< 12 > >( t ); addConvert< T, Sized< 24 > >( t ); }
static void sizes( Src & s )
{
  static auto const table = []() { std::vector< Convert > t; addConverts< char >( t ); addConverts< short >( t ); addConverts< Sized< 3 > >( t ); addConverts< float >( t ); addConverts< Sized< 6 > >( t ); addConverts< long >( t ); addConverts< Sized< 12 > >( t ); addConverts< Sized< 24 > >( t ); return t; }();
  Convert const & c = table[ s.choose( table.size() - 1 ) ];
  // At most the number of values that fit in the memory the index can count.
  long const most = std::min( c.maxIndex, std::numeric_limits< long >::max() / c.from );
  long n = s.boolean() ? s.range( 0, 100 ) : long( s.choose( most ) );
  if( s.boolean() && n <= most / c.to ) n *= c.to / std::min( c.to, c.from );
  LOG( s, n << " of " << c.from << " bytes as values of " << c.to << " bytes, index type " << c.index );
  __int128 const bytes = __int128( n ) * c.from, want = bytes / c.to;
  if( want > c.maxIndex ) return;
  bool error = false;
  long long const got = c.call( n, error );
  CHECK_EQ( error, bytes % c.to != 0, "convertSize of ", n, " values of ", c.from, " bytes to values of ", c.to, " bytes reports an error" );
  if( !error ) CHECK_EQ( got, static_cast< long long >( want ), "convertSize of ", n, " values of ", c.from, " bytes to values of ", c.to, " bytes" );
  s.label( error ? "not a whole number" : "a whole number" );
  if( c.to != c.from && n ) s.nontrivial();
}
static Registrar r4( "types.sizes", sizes, 6000, "different sizes, not zero values" );

// ---------------------------------------------------------------------------------------------------- arrays
template< typename T, int N > void carray( Src & s )
{
  tman::CArray< T, N > zero {}; tman::CArray< T, N > a {}; T want[ N ];
  for( int i = 0; i < N; ++i ) { CHECK_EQ( zero[ i ], T(), "default" ); want[ i ] = T( s.range( 0, 200 ) - 100 ); a[ i ] = want[ i ]; }
  tman::CArray< T, N > const b = a;
  CHECK_EQ( a.size(), idx_t( N ), "size" );
  CHECK_EQ( sizeof( a ), sizeof( T ) * N, "bytes" );
  for( int i = 0; i < N; ++i ) { CHECK_EQ( b[ i ], want[ i ], "element ", i ); CHECK_EQ( &b[ i ] - b.data, std::ptrdiff_t( i ), "address ", i ); CHECK_EQ( &a[ i ] - a.data, std::ptrdiff_t( i ), "address ", i ); }
  LOG( s, "array of " << N );
  if( N > 1 ) s.nontrivial();
}
static void carrays( Src & s ) { switch( s.range( 0, 4 ) ) { case 0: carray< int, 1 >( s ); break; case 1: carray< long, 2 >( s ); break; case 2: carray< double, 3 >( s ); break; case 3: carray< short, 7 >( s ); break; default: carray< idx_t, 5 >( s ); } }
static Registrar r5( "types.carray", carrays, 1500, "at least two elements" );

// ---------------------------------------------------------------------------------------------------- detection of members
namespace detect
{
IS_VALID_EXPRESSION( Increments, X, ++std::declval< X & >() );
IS_VALID_EXPRESSION( Subscripts, X, std::declval< X & >()[ 0 ] );
IS_VALID_EXPRESSION_2( Assigns, X, Y, std::declval< X & >() = std::declval< Y >() );
IS_VALID_EXPRESSION_2( Adds, X, Y, std::declval< X >() + std::declval< Y >() );
HAS_MEMBER_FUNCTION_NO_RTYPE( probe, );
HAS_MEMBER_FUNCTION_NO_RTYPE( probeArgs, std::declval< int >(), std::declval< double & >() );
HAS_MEMBER_FUNCTION_NO_RTYPE( probeClass, std::declval< CLASS const & >() );
HAS_MEMBER_TYPE( Nested );
HAS_STATIC_MEMBER( member );
struct Empty {};
template< int K > struct Fn : Empty {};                        // 0 none
template<> struct Fn< 1 > { void probe() {} };
template<> struct Fn< 2 > { int probe( int ) { return 0; } };  // does not take no arguments
template<> struct Fn< 3 > { int probe( int = 0 ) const { return 0; } };
template<> struct Fn< 4 > { protected: void probe() {} };      // not accessible
template<> struct Fn< 5 > { int probe; };
template<> struct Fn< 6 > { static double probe() { return 0; } };
constexpr bool fnOf( int k, bool ) { return k == 1 || k == 3 || k == 6; }
template< int K > struct Args : Empty {};
template<> struct Args< 1 > { void probeArgs( int, double & ) {} };
template<> struct Args< 2 > { void probeArgs( long, double const & ) const {} };
template<> struct Args< 3 > { void probeArgs( int ) {} };
template<> struct Args< 4 > { template< typename A, typename B > void probeArgs( A, B & ) {} };
template<> struct Args< 5 > { void probeArgs( int, std::string ) {} };
constexpr bool argsOf( int k ) { return k == 1 || k == 2 || k == 4; }
template< int K > struct Type : Empty {};
template<> struct Type< 1 > { using Nested = int; };
template<> struct Type< 2 > { struct Nested { Nested( int ); }; };
template<> struct Type< 3 > { int Nested; };
template<> struct Type< 4 > { protected: using Nested = int; };
constexpr bool typeOf( int k ) { return k == 1 || k == 2; }
template< int K > struct Stat : Empty {};
template<> struct Stat< 1 > { static int member; };
template<> struct Stat< 2 > { static constexpr bool member = true; };
template<> struct Stat< 3 > { int member; };
template<> struct Stat< 4 > { protected: static int member; };
template<> struct Stat< 5 > { void member() {} };
template<> struct Stat< 6 > { static void member() {} };
constexpr bool statOf( int k ) { return k == 1 || k == 2 || k == 6; }
template< int A, int B, int C, int D > struct Class : Fn< A >, Args< B >, Type< C >, Stat< D > {};
struct Result { int a, b, c, d; bool isConst; bool fn, args, type, stat, pairs; };
template< int A, int B, int C, int D > Result of()
{
  using X = Class< A, B, C, D >; using Y = X const;
  Result r { A, B, C, D, false, HasMemberFunction_probe< X >, HasMemberFunction_probeArgs< X >, HasMemberType_Nested< X >, HasStaticMember_member< X >, false };
  // References and constness.
  r.pairs = HasMemberFunction_probe< X & > == HasMemberFunction_probe< X > && HasMemberFunction_probe< Y > == ( A == 3 || A == 6 ) && HasMemberFunction_probe< Y & > == ( A == 3 || A == 6 ) && HasMemberFunction_probeArgs< Y > == ( B == 2 );
  return r;
}
template< int K > Result ofNumber() { return of< K % 7, K / 7 % 6, K / 42 % 5, K / 210 % 7 >(); }
template< std::size_t... K > std::vector< Result > all( std::index_sequence< K... > ) { return { ofNumber< K >()... }; }

struct Other { Other & operator=( int ) { return *this; } int operator+( Other const & ) const { return 0; } Other & operator++() { return *this; } };
struct Const { Const & operator=( Const const & ) = delete; int operator[]( int ) const { return 0; } };
}
static void members( Src & s )
{
  static auto const table = detect::all( std::make_index_sequence< 1470 > {} );
  detect::Result const & r = table[ s.choose( table.size() - 1 ) ];
  LOG( s, "class " << r.a << r.b << r.c << r.d );
  CHECK_EQ( r.fn, detect::fnOf( r.a, false ), "HAS_MEMBER_FUNCTION without arguments of class ", r.a );
  CHECK_EQ( r.args, detect::argsOf( r.b ), "HAS_MEMBER_FUNCTION with arguments of class ", r.b );
  CHECK_EQ( r.type, detect::typeOf( r.c ), "HAS_MEMBER_TYPE of class ", r.c );
  CHECK_EQ( r.stat, detect::statOf( r.d ), "HAS_STATIC_MEMBER of class ", r.d );
  CHECK( r.pairs, "detection through references and const of class ", r.a, r.b );
  s.nontrivial();
}
static Registrar r6( "types.members", members, 4000, "every case" );

static void expressions( Src & s )
{
  using namespace detect;
  struct Q { char const * what; bool got, want; };
  static Q const table[] = {
    { "++int", Increments< int >, true }, { "++int const", Increments< int const >, false }, { "++double *", Increments< double * >, true }, { "++string", Increments< std::string >, false },
    { "++Other", Increments< Other >, true }, { "++Other const", Increments< Other const >, false }, { "++Const", Increments< Const >, false }, { "++vector", Increments< std::vector< int > >, false },
    { "int []", Subscripts< int >, false }, { "int * []", Subscripts< int * >, true }, { "int[3] []", Subscripts< int[ 3 ] >, true }, { "vector []", Subscripts< std::vector< int > >, true }, { "Const []", Subscripts< Const >, true },
    { "Other []", Subscripts< Other >, false }, { "map<string> []", Subscripts< std::map< std::string *, int > >, true },
    { "int = double", Assigns< int, double >, true }, { "int const = int", Assigns< int const, int >, false }, { "Other = int", Assigns< Other, int >, true }, { "Other = string", Assigns< Other, std::string >, false }, { "Const = Const", Assigns< Const, Const >, false },
    { "string = char const *", Assigns< std::string, char const * >, true }, { "int * = double *", Assigns< int *, double * >, false }, { "int const * = int *", Assigns< int const *, int * >, true }, { "int * = int const *", Assigns< int *, int const * >, false },
    { "int + double", Adds< int, double >, true }, { "Other + Other", Adds< Other, Other >, true }, { "Other + int", Adds< Other, int >, false }, { "Const + Const", Adds< Const, Const >, false }, { "int * + int", Adds< int *, int >, true }, { "int * + int *", Adds< int *, int * >, false },
    { "vector of vector<int>", tman::is_instantiation_of< std::vector, std::vector< int > >, true }, { "vector of list<int>", tman::is_instantiation_of< std::vector, std::list< int > >, false }, { "vector of int", tman::is_instantiation_of< std::vector, int >, false },
    { "map of map", tman::is_instantiation_of< std::map, std::map< int, std::vector< int > > >, true }, { "map of unordered_map", tman::is_instantiation_of< std::map, std::unordered_map< int, int > >, false }, { "pair of pair", tman::is_instantiation_of< std::pair, std::pair< int, int > >, true },
    { "vector of vector of vector", tman::is_instantiation_of< std::vector, std::vector< std::vector< int > > >, true }, { "vector of map of vector", tman::is_instantiation_of< std::vector, std::map< int, std::vector< int > > >, false }, { "vector of vector *", tman::is_instantiation_of< std::vector, std::vector< int > * >, false },
    { "tuple of tuple", tman::is_instantiation_of< std::tuple, std::tuple<> >, true }, { "tuple of pair", tman::is_instantiation_of< std::tuple, std::pair< int, int > >, false }, { "basic_string of string", tman::is_instantiation_of< std::basic_string, std::string >, true } };
  Q const & q = table[ s.choose( sizeof( table ) / sizeof( table[ 0 ] ) - 1 ) ];
  LOG( s, q.what );
  CHECK_EQ( q.got, q.want, q.what );
  s.nontrivial();
}
static Registrar r7( "types.expressions", expressions, 300, "every case" );

// ---------------------------------------------------------------------------------------------------- types of views
namespace views
{
struct V {}; struct VCS {}; struct VC {}; struct NV {}; struct NVC {};
template< int M > struct A0 {};
#define PART( M, FN, R ) template< bool > struct P ## M {}; template<> struct P ## M< true > { R FN() const { return {}; } };
PART( 1, toView, V ) PART( 2, toViewConstSizes, VCS ) PART( 3, toViewConst, VC ) PART( 4, toNestedView, NV ) PART( 5, toNestedViewConst, NVC )
template< int K > struct Obj : P1< ( K & 1 ) != 0 >, P2< ( K & 2 ) != 0 >, P3< ( K & 4 ) != 0 >, P4< ( K & 8 ) != 0 >, P5< ( K & 16 ) != 0 > { int x; };
struct Res { int k; char const * how; bool view, viewConstSizes, viewConst, nested, nestedConst; };
template< int K, typename T > Res of( char const * how )
{
  constexpr bool c = std::is_const< std::remove_reference_t< T > >::value;
  using PLAIN = std::remove_reference_t< T >;
  using REF = PLAIN &; using CREF = PLAIN const &; ( void ) c;
  using W1 = std::conditional_t< ( K & 1 ) != 0, V, REF >;
  using W2 = std::conditional_t< ( K & 2 ) != 0, VCS, W1 >;
  using W3 = std::conditional_t< ( K & 4 ) != 0, VC, CREF >;
  using W4 = std::conditional_t< ( K & 8 ) != 0, NV const, W1 >;
  using W5 = std::conditional_t< ( K & 16 ) != 0, NVC const, W3 >;
  return { K, how, std::is_same< W1, tman::ViewType< T > >::value, std::is_same< W2, tman::ViewTypeConstSizes< T > >::value, std::is_same< W3, tman::ViewTypeConst< T > >::value, std::is_same< W4, tman::NestedViewType< T > >::value, std::is_same< W5, tman::NestedViewTypeConst< T > >::value };
}
template< std::size_t... K > std::vector< Res > all( std::index_sequence< K... > )
{
  return { of< K, Obj< K > >( "object" )..., of< K, Obj< K > & >( "reference" )..., of< K, Obj< K > const >( "const object" )..., of< K, Obj< K > const & >( "reference to const" )...,
           of< 0, int >( "int" ), of< 0, int & >( "int &" ), of< 0, int const >( "int const" ), of< 0, int * >( "int *" ), of< 0, int const * >( "int const *" ), of< 0, char[ 7 ] >( "char[ 7 ]" ), of< 0, std::string >( "string" ), of< 0, std::vector< int > const >( "vector const" ) };
}
}
static void viewTypes( Src & s )
{
  static auto const table = views::all( std::make_index_sequence< 32 > {} );
  views::Res const & r = table[ s.choose( table.size() - 1 ) ];
  LOG( s, r.how << " with members " << r.k );
  CHECK( r.view, "ViewType of ", r.how, " with members ", r.k );
  CHECK( r.viewConstSizes, "ViewTypeConstSizes of ", r.how, " with members ", r.k );
  CHECK( r.viewConst, "ViewTypeConst of ", r.how, " with members ", r.k );
  CHECK( r.nested, "NestedViewType of ", r.how, " with members ", r.k );
  CHECK( r.nestedConst, "NestedViewTypeConst of ", r.how, " with members ", r.k );
  if( r.k ) s.nontrivial();
}
static Registrar r8( "types.viewTypes", viewTypes, 1000, "an object with a method that makes a view" );
