// C38 the gdb pretty printers show what the containers hold.
#include "chaimem.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include <map>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
using LvArray::MallocBuffer; using LvArray::ChaiBuffer;

template< typename T, int N, typename PERM, typename I > using Arr = LvArray::Array< T, N, PERM, I, MallocBuffer >;
using A1 = Arr< int, 1, RAJA::PERM_I, std::ptrdiff_t >;
using A2 = Arr< double, 2, RAJA::PERM_IJ, int >;
using A3 = Arr< int, 3, RAJA::PERM_IJK, std::ptrdiff_t >;
using A4 = Arr< long long, 4, RAJA::PERM_IJKL, int >;
using K2 = LvArray::StackArray< int, 2, RAJA::PERM_IJ, int, 30 >;
using C1 = LvArray::Array< int, 2, RAJA::PERM_IJ, int, ChaiBuffer >;
using N1 = Arr< A1, 1, RAJA::PERM_I, int >;
using AoA = LvArray::ArrayOfArrays< int, int, MallocBuffer >;
using AoAC = LvArray::ArrayOfArrays< double, std::ptrdiff_t, ChaiBuffer >;
using AoS = LvArray::ArrayOfSets< int, std::ptrdiff_t, MallocBuffer >;
using Spa = LvArray::SparsityPattern< int, std::ptrdiff_t, MallocBuffer >;
using Crs = LvArray::CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer >;
template< typename X > using V = std::remove_cv_t< std::remove_reference_t< X > >;

// What gdb looks at.
#define VIEW_OF( x, f ) V< decltype( std::declval< x & >().f ) >
A1 * g_a1; A2 * g_a2; A3 * g_a3; A4 * g_a4; K2 * g_k2; C1 * g_c1; N1 * g_n1;
VIEW_OF( A2, toView() ) * g_a2v; VIEW_OF( A3, toViewConst() ) * g_a3v; VIEW_OF( C1, toView() ) * g_c1v;
VIEW_OF( A1, toSlice() ) * g_a1s; VIEW_OF( A2, toSlice() ) * g_a2s; VIEW_OF( A3, toSliceConst() ) * g_a3s; VIEW_OF( A4, toSlice() ) * g_a4s;
VIEW_OF( A2, toSlice()[ 0 ] ) * g_a2r; VIEW_OF( A3, toSliceConst()[ 0 ] ) * g_a3r; VIEW_OF( A4, toSlice()[ 0 ][ 0 ] ) * g_a4r; VIEW_OF( K2, toSlice() ) * g_k2s;
MallocBuffer< short > * g_mb; ChaiBuffer< int > * g_cb; LvArray::StackBuffer< int, 6 > * g_sb;
AoA * g_aoa; VIEW_OF( AoA, toViewConst() ) * g_aoav; AoAC * g_aoac; AoS * g_aos; VIEW_OF( AoS, toView() ) * g_aosv; Spa * g_spa; VIEW_OF( Spa, toViewConst() ) * g_spav; Crs * g_crs; VIEW_OF( Crs, toViewConst() ) * g_crsv;

namespace
{
char const * const SCRIPT = R"PY(
import gdb, os
for x in ('elements', 'repeats', 'max-depth'):
    gdb.execute('set print %s unlimited' % x)
def bases(v):
    return [f for f in v.type.strip_typedefs().fields() if f.is_base_class]
def find(v, rows):
    vis = gdb.default_visualizer(v)
    if vis is not None:
        kids = list(vis.children())
        hit = [c for n, c in kids if (n.isdigit() if rows else n == 'gdb_view')]
        if hit or rows and 'ArrayOfArraysView<' in str(v.type.strip_typedefs()).split('::')[1][:20]:
            return str(vis.to_string()), hit
    for f in bases(v):
        r = find(v.cast(f.type), rows)
        if r is not None:
            return r
    return None
def fmt(c):
    return c.format_string(raw=False)
def dump(name, v, rows):
    r = find(v, rows)
    if r is None:
        print('@%s\tNOTHING' % name); return
    print('@%s\t%s' % (name, r[0]))
    for c in r[1]:
        print('>%s\t%s' % (c.type.strip_typedefs(), fmt(c)))
for item in os.environ['LV_GDB_ITEMS'].split():
    kind, name = item.split(':')
    try:
        v = gdb.parse_and_eval('*' + name)
        if kind == 'nested':
            s, outer = find(v, False)
            outer = outer[0]
            print('@%s\t%s' % (name, s))
            lo, hi = outer.type.range()
            for i in range(lo, hi + 1):
                dump('inner', outer[i], False)
        else:
            dump(name, v, kind == 'rows')
        print('=' + str(v.format_string()))
    except Exception as e:
        print('!%s\t%s %s' % (name, type(e).__name__, e))
print('#done')
)PY";

struct Expected
{
  std::string name, kind, size;
  /// Of each C array: its type (element type and lengths) and text. Empty text: there is nothing to show.
  std::vector< std::pair< std::string, std::string > > arrays;
};
std::string num( int v ) { return std::to_string( v ); }
std::string num( short v ) { return std::to_string( v ); }
std::string num( long long v ) { return std::to_string( v ); }
std::string num( double v ) { std::ostringstream o; o.precision( 17 ); o << v; return o.str(); }
/// {{0, 1}, {2, 3}}
template< typename T > std::string braces( std::vector< T > const & v, std::vector< long > const & dims, std::size_t d, std::size_t & at )
{
  if( d == dims.size() ) return num( v[ at++ ] );
  std::string r = "{";
  for( long i = 0; i < dims[ d ]; ++i ) r += ( i ? ", " : "" ) + braces( v, dims, d + 1, at );
  return r + "}";
}
template< typename T > std::pair< std::string, std::string > block( char const * type, std::vector< T > const & v, std::vector< long > const & dims )
{
  std::string t = std::string( type ) + " ";
  for( long d : dims ) t += "[" + std::to_string( d ) + "]";
  std::size_t at = 0;
  return { t, v.empty() ? std::string() : braces( v, dims, 0, at ) };
}
std::string sizes( std::vector< long > const & dims ) { std::string t; for( long d : dims ) t += "[" + std::to_string( d ) + "]"; return t; }

std::string runGdb( std::string const & items )
{
  static int const script = []() { int const fd = memfd_create( "script", 0 ); CHECK( fd >= 0 && write( fd, SCRIPT, std::strlen( SCRIPT ) ) > 0, "memfd" ); return fd; } ();
  int out[ 2 ], go[ 2 ]; CHECK( pipe( out ) == 0 && pipe( go ) == 0, "pipe" );
  pid_t const me = getpid();
  pid_t const pid = fork();
  CHECK( pid >= 0, "fork" );
  if( pid == 0 )
  {
    char c; close( go[ 1 ] ); if( read( go[ 0 ], &c, 1 ) != 1 ) _exit( 99 );
    dup2( out[ 1 ], 1 ); dup2( out[ 1 ], 2 ); close( out[ 0 ] ); close( out[ 1 ] ); close( go[ 0 ] );
    int const null = open( "/dev/null", O_RDONLY ); dup2( null, 0 );
    char const * const repo = std::getenv( "VERIF_REPO" );
    std::string const path = repo ? repo : "/repo";
    std::string const safe = "add-auto-load-safe-path " + path, dir = "directory " + path, exec = "python exec(open('/proc/self/fd/" + std::to_string( script ) + "').read())", pidText = std::to_string( me );
    setenv( "LV_GDB_ITEMS", items.c_str(), 1 );
    unsetenv( "LD_PRELOAD" );
    execlp( "gdb", "gdb", "-nx", "-q", "--batch", "-iex", "set debuginfod enabled off", "-iex", safe.c_str(), "-iex", dir.c_str(), "-iex", "set confirm off", "-p", pidText.c_str(), "-ex", exec.c_str(), "-ex", "detach", ( char * ) nullptr );
    _exit( 98 );
  }
  prctl( PR_SET_PTRACER, pid );
  close( out[ 1 ] ); close( go[ 0 ] );
  CHECK( write( go[ 1 ], "g", 1 ) == 1, "pipe" ); close( go[ 1 ] );
  std::string text; char buf[ 4096 ]; ssize_t n;
  while( ( n = read( out[ 0 ], buf, sizeof( buf ) ) ) > 0 || ( n < 0 && errno == EINTR ) ) if( n > 0 ) text.append( buf, n );
  close( out[ 0 ] );
  int status = 0; while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  CHECK( text.find( "\n#done" ) != std::string::npos, "gdb ended with status ", status, ": ", text.substr( 0, 3000 ) );
  return text;
}

template< typename T, typename ARRAY > std::vector< T > values( ARRAY & a, Src & s )
{
  std::vector< T > v( a.size() );
  for( std::size_t i = 0; i < v.size(); ++i ) { v[ i ] = static_cast< T >( s.range( -500, 500 ) ); if( std::is_floating_point< T >::value ) v[ i ] = static_cast< T >( v[ i ] / 8 ); a.data()[ i ] = v[ i ]; }
  return v;
}
std::vector< long > shape( Src & s, int n, long max, long total )
{
  std::vector< long > d; long p = 1;
  for( int i = 0; i < n; ++i ) { long const hi = std::max( 1l, std::min( max, total / p ) ); d.push_back( s.boolean( 0.05 ) ? 0 : s.range( 1l, hi ) ); p *= std::max( 1l, d.back() ); }
  return d;
}
template< typename T > std::vector< T > part( std::vector< T > const & v, long at, long n ) { return n ? std::vector< T >( v.begin() + at, v.begin() + at + n ) : std::vector< T >(); }
long product( std::vector< long > const & d, std::size_t from ) { long p = 1; for( std::size_t i = from; i < d.size(); ++i ) p *= d[ i ]; return p; }
std::vector< long > rest( std::vector< long > const & d, std::size_t from ) { return std::vector< long >( d.begin() + from, d.end() ); }

void shown( Src & s )
{
  mem::Session ses;
  std::vector< Expected > want;
  bool full = true;

  A1 a1; A2 a2; A3 a3; A4 a4; K2 k2; C1 c1; N1 n1;
  auto const d1 = shape( s, 1, 300, 300 ), d2 = shape( s, 2, 8, 40 ), d3 = shape( s, 3, 5, 40 ), d4 = shape( s, 4, 4, 60 ), dk = shape( s, 2, 30, 30 ), dc = shape( s, 2, 8, 40 );
  a1.resize( d1[ 0 ] ); a2.resize( d2[ 0 ], d2[ 1 ] ); a3.resize( d3[ 0 ], d3[ 1 ], d3[ 2 ] ); a4.resize( d4[ 0 ], d4[ 1 ], d4[ 2 ], d4[ 3 ] ); k2.resize( dk[ 0 ], dk[ 1 ] ); c1.resize( dc[ 0 ], dc[ 1 ] );
  auto const v1 = values< int >( a1, s ); auto const v2 = values< double >( a2, s ); auto const v3 = values< int >( a3, s ); auto const v4 = values< long long >( a4, s ); auto const vk = values< int >( k2, s ); auto const vc = values< int >( c1, s );
  LOG( s, "shapes " << sizes( d1 ) << " " << sizes( d2 ) << " " << sizes( d3 ) << " " << sizes( d4 ) << " stack " << sizes( dk ) << " managed " << sizes( dc ) );
  g_a1 = &a1; g_a2 = &a2; g_a3 = &a3; g_a4 = &a4; g_k2 = &k2; g_c1 = &c1; g_n1 = &n1;
  want.push_back( { "g_a1", "view", sizes( d1 ), { block( "int", v1, d1 ) } } );
  want.push_back( { "g_a2", "view", sizes( d2 ), { block( "double", v2, d2 ) } } );
  want.push_back( { "g_a3", "view", sizes( d3 ), { block( "int", v3, d3 ) } } );
  want.push_back( { "g_a4", "view", sizes( d4 ), { block( "long long", v4, d4 ) } } );
  want.push_back( { "g_k2", "view", sizes( dk ), { block( "int", vk, dk ) } } );
  want.push_back( { "g_c1", "view", sizes( dc ), { block( "int", vc, dc ) } } );
  auto a2v = a2.toView(); auto a3v = a3.toViewConst(); auto c1v = c1.toView();
  g_a2v = &a2v; g_a3v = &a3v; g_c1v = &c1v;
  want.push_back( { "g_a2v", "view", sizes( d2 ), { block( "double", v2, d2 ) } } );
  want.push_back( { "g_a3v", "view", sizes( d3 ), { block( "const int", v3, d3 ) } } );
  want.push_back( { "g_c1v", "view", sizes( dc ), { block( "int", vc, dc ) } } );
  auto a1s = a1.toSlice(); auto a2s = a2.toSlice(); auto a3s = a3.toSliceConst(); auto a4s = a4.toSlice(); auto k2s = k2.toSlice();
  g_a1s = &a1s; g_a2s = &a2s; g_a3s = &a3s; g_a4s = &a4s; g_k2s = &k2s;
  want.push_back( { "g_a1s", "view", sizes( d1 ), { block( "int", v1, d1 ) } } );
  want.push_back( { "g_a2s", "view", sizes( d2 ), { block( "double", v2, d2 ) } } );
  want.push_back( { "g_a3s", "view", sizes( d3 ), { block( "const int", v3, d3 ) } } );
  want.push_back( { "g_a4s", "view", sizes( d4 ), { block( "long long", v4, d4 ) } } );
  want.push_back( { "g_k2s", "view", sizes( dk ), { block( "int", vk, dk ) } } );
  // Slices of slices; a row of an array.
  std::unique_ptr< V< decltype( a2s[ 0 ] ) > > a2r; std::unique_ptr< V< decltype( a3s[ 0 ] ) > > a3r; std::unique_ptr< V< decltype( a4s[ 0 ][ 0 ] ) > > a4r;
  if( d2[ 0 ] > 0 ) { long const i = s.range( 0l, d2[ 0 ] - 1 ); a2r.reset( new V< decltype( a2s[ 0 ] ) >( a2s[ i ] ) ); g_a2r = a2r.get(); want.push_back( { "g_a2r", "view", sizes( rest( d2, 1 ) ), { block( "double", part( v2, i * product( d2, 1 ), product( d2, 1 ) ), rest( d2, 1 ) ) } } ); }
  if( d3[ 0 ] > 0 ) { long const i = s.range( 0l, d3[ 0 ] - 1 ); a3r.reset( new V< decltype( a3s[ 0 ] ) >( a3s[ i ] ) ); g_a3r = a3r.get(); want.push_back( { "g_a3r", "view", sizes( rest( d3, 1 ) ), { block( "const int", part( v3, i * product( d3, 1 ), product( d3, 1 ) ), rest( d3, 1 ) ) } } ); }
  if( d4[ 0 ] > 0 && d4[ 1 ] > 0 ) { long const i = s.range( 0l, d4[ 0 ] - 1 ), j = s.range( 0l, d4[ 1 ] - 1 ); a4r.reset( new V< decltype( a4s[ 0 ][ 0 ] ) >( a4s[ i ][ j ] ) ); g_a4r = a4r.get(); want.push_back( { "g_a4r", "view", sizes( rest( d4, 2 ) ), { block( "long long", part( v4, i * product( d4, 1 ) + j * product( d4, 2 ), product( d4, 2 ) ), rest( d4, 2 ) ) } } ); }
  for( auto const * d : { &d1, &d2, &d3, &d4 } ) full = full && product( *d, 0 ) > 1;

  // Buffers show their whole capacity.
  MallocBuffer< short > mb( true ); ChaiBuffer< int > cb( true ); LvArray::StackBuffer< int, 6 > sb( true );
  long const nm = s.range( 0, 20 ), nc = s.range( 1, 20 );
  mb.reallocate( 0, LvArray::MemorySpace::host, nm ); cb.reallocate( 0, LvArray::MemorySpace::host, nc );
  std::vector< short > vmb; std::vector< int > vcb, vsb;
  for( long i = 0; i < nm; ++i ) vmb.push_back( mb.data()[ i ] = static_cast< short >( s.range( -500, 500 ) ) );
  for( long i = 0; i < nc; ++i ) vcb.push_back( cb.data()[ i ] = s.range( -500, 500 ) );
  for( long i = 0; i < 6; ++i ) vsb.push_back( sb.data()[ i ] = s.range( -500, 500 ) );
  g_mb = &mb; g_cb = &cb; g_sb = &sb;
  want.push_back( { "g_mb", "view", std::to_string( nm ), { block( "short", vmb, { nm } ) } } );
  want.push_back( { "g_cb", "view", std::to_string( nc ), { block( "int", vcb, { nc } ) } } );
  want.push_back( { "g_sb", "view", "6", { block( "int", vsb, { 6 } ) } } );

  // Nested arrays.
  long const nn = s.range( 0, 4 );
  n1.resize( nn );
  std::vector< Expected > inner;
  for( long i = 0; i < nn; ++i )
  {
    n1[ i ].resize( s.range( 0, 5 ) ); auto const v = values< int >( n1[ i ], s );
    inner.push_back( { "inner", "view", sizes( { long( v.size() ) } ), { block( "int", v, { long( v.size() ) } ) } } );
  }
  if( nn > 0 ) { want.push_back( { "g_n1", "nested", sizes( { nn } ), {} } ); want.insert( want.end(), inner.begin(), inner.end() ); }

  // Ragged containers: an array for each row.
  AoA aoa; AoAC aoac; AoS aos; Spa spa; Crs crs;
  auto rows = [&]( char const * name, char const * type, auto const & model )
  {
    Expected e{ name, "rows", std::to_string( model.size() ), {} };
    for( auto const & r : model ) e.arrays.push_back( block( type, r, { long( r.size() ) } ) );
    want.push_back( e );
  };
  std::vector< std::vector< int > > maoa( s.range( 0, 6 ) ); aoa.resize( maoa.size(), s.range( 0, 3 ) );
  for( std::size_t i = 0; i < maoa.size(); ++i ) for( int k = s.range( 0, 5 ); k > 0; --k ) { int const x = s.range( -500, 500 ); maoa[ i ].push_back( x ); aoa.emplaceBack( i, x ); }
  std::vector< std::vector< double > > maoac( s.range( 0, 6 ) ); aoac.resize( maoac.size(), s.range( 0, 3 ) );
  for( std::size_t i = 0; i < maoac.size(); ++i ) for( int k = s.range( 0, 5 ); k > 0; --k ) { double const x = s.range( -500, 500 ) / 4.0; maoac[ i ].push_back( x ); aoac.emplaceBack( i, x ); }
  std::vector< std::set< int > > sets( s.range( 0, 5 ) ); aos.resize( sets.size(), s.range( 0, 3 ) );
  for( std::size_t i = 0; i < sets.size(); ++i ) for( int k = s.range( 0, 5 ); k > 0; --k ) { int const x = s.range( -500, 500 ); sets[ i ].insert( x ); aos.insertIntoSet( i, x ); }
  std::vector< std::set< int > > cols( s.range( 0, 5 ) ), entries( s.range( 0, 5 ) ); spa.resize( cols.size(), 9, s.range( 0, 3 ) ); crs.resize( entries.size(), 9, s.range( 0, 3 ) );
  for( std::size_t i = 0; i < cols.size(); ++i ) for( int k = s.range( 0, 5 ); k > 0; --k ) { int const x = s.range( 0, 8 ); cols[ i ].insert( x ); spa.insertNonZero( i, x ); }
  for( std::size_t i = 0; i < entries.size(); ++i ) for( int k = s.range( 0, 5 ); k > 0; --k ) { int const x = s.range( 0, 8 ); entries[ i ].insert( x ); crs.insertNonZero( i, x, 1.5 ); }
  auto lists = []( std::vector< std::set< int > > const & m ) { std::vector< std::vector< int > > r; for( auto const & x : m ) r.emplace_back( x.begin(), x.end() ); return r; };
  auto aoav = aoa.toViewConst(); auto aosv = aos.toView(); auto spav = spa.toViewConst(); auto crsv = crs.toViewConst();
  g_aoa = &aoa; g_aoav = &aoav; g_aoac = &aoac; g_aos = &aos; g_aosv = &aosv; g_spa = &spa; g_spav = &spav; g_crs = &crs; g_crsv = &crsv;
  rows( "g_aoa", "int", maoa ); rows( "g_aoav", "const int", maoa ); rows( "g_aoac", "double", maoac ); rows( "g_aos", "int", lists( sets ) ); rows( "g_aosv", "int", lists( sets ) );
  rows( "g_spa", "int", lists( cols ) ); rows( "g_spav", "const int", lists( cols ) ); rows( "g_crs", "int", lists( entries ) ); rows( "g_crsv", "const int", lists( entries ) );
  if( full && maoa.size() > 1 ) s.nontrivial();

  std::string items;
  for( auto const & e : want ) if( e.name != "inner" ) items += e.kind + ":" + e.name + " ";
  std::string const text = runGdb( items );

  // Read what gdb said.
  std::istringstream in( text ); std::string line;
  std::size_t at = 0; Expected const * current = nullptr; std::size_t array = 0; std::string collected;
  auto finish = [&]()
  {
    if( current != nullptr && current->kind != "nested" ) CHECK_EQ( array, current->arrays.size(), "number of arrays shown of ", current->name );
    current = nullptr;
  };
  while( std::getline( in, line ) )
  {
    if( line.empty() ) continue;
    CHECK( line[ 0 ] != '!', "gdb failed to show ", line );
    CHECK( line.find( "Python Exception" ) == std::string::npos, "gdb: ", line );
    if( line[ 0 ] == '@' )
    {
      finish();
      CHECK( at < want.size(), "more objects shown than asked for" );
      current = &want[ at++ ]; array = 0;
      std::size_t const tab = line.find( '\t' );
      CHECK_EQ( line.substr( 1, tab - 1 ), current->name, "object shown" );
      std::string const end = " of size " + current->size;
      CHECK( line.size() >= end.size() && line.compare( line.size() - end.size(), end.size(), end ) == 0, current->name, " is shown as ", line.substr( tab + 1 ), ", its size is ", current->size );
      CHECK( line.find( "LvArray::" ) != std::string::npos, current->name, " is shown as ", line.substr( tab + 1 ) );
    }
    else if( line[ 0 ] == '>' )
    {
      CHECK( current != nullptr && array < current->arrays.size(), "an array that isn't there is shown: ", line );
      auto const & w = current->arrays[ array++ ];
      std::size_t const tab = line.find( '\t' );
      // Of arrays without values gdb shows the address.
      if( w.second.empty() ) continue;
      CHECK_EQ( line.substr( 1, tab - 1 ), w.first, "type of the array shown of ", current->name );
      CHECK_EQ( line.substr( tab + 1 ), w.second, "values shown of ", current->name );
    }
    else if( line[ 0 ] == '=' )
    {
      // What print shows contains all of it.
      if( current == nullptr ) continue;
      std::size_t from = at - 1; if( want[ from ].name == "inner" ) while( want[ from ].name == "inner" ) --from;
      for( std::size_t i = from; i < at; ++i ) for( auto const & w : want[ i ].arrays ) CHECK( w.second.empty() || line.find( "= " + w.second ) != std::string::npos, "print of ", want[ i ].name, " doesn't show ", w.second, ": ", line );
      finish();
    }
  }
  CHECK_EQ( at, want.size(), "number of objects shown" );
}
Registrar r1( "printers", shown, 80, "all plain arrays have more than one value and the ragged one more than one row; the shapes, types and values gdb shows are compared to those of thirty containers, views, slices and buffers", false, false );
}
