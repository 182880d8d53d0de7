// C36 stack traces name the functions on the call path and where they were called.
#include "Macros.hpp"
#include "system.hpp"
#include "lv.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <new>
#include <thread>
#include <unistd.h>
using namespace pbt;

// Everything on a call path needs external linkage, dladdr only knows exported symbols.
namespace trc
{
using Step = void ( * )( int );
/// The call path of the current case: one byte per call.
unsigned char g_path[ 256 ];
int g_length;
/// The line of each call, written by the functions called.
int g_lines[ 256 ];
char const * g_names[ 256 ];
char const * g_files[ 256 ];
bool g_libraryBefore[ 256 ];
sigjmp_buf g_back;
/// Static storage: longjmp skips destructors.
char g_trace[ 1 << 16 ];
bool g_location;
#define AFTER asm volatile ( "" ::: "memory" )
#define CALLED( at, name ) g_lines[ at ] = __LINE__, g_names[ at ] = name, g_files[ at ] = __FILE__

extern Step const volatile g_steps[];
Step next( int at ) { return g_steps[ g_path[ at ] ]; }

__attribute__(( noinline )) void keep( std::string const & t ) { t.copy( g_trace, sizeof( g_trace ) - 1 ); g_trace[ t.size() < sizeof( g_trace ) ? t.size() : sizeof( g_trace ) - 1 ] = 0; }

__attribute__(( noinline )) void leaf( int at )
{
  {
    std::string t;
    CALLED( at, "trc::leaf(int)" ); t = LvArray::system::stackTrace( g_location );
    keep( t );
  }
  siglongjmp( g_back, 1 );
}
__attribute__(( noinline )) void plain( int at )
{
  Step const f = next( at + 1 );
  CALLED( at, "trc::plain(int)" ); f( at + 1 );
  AFTER;
}
__attribute__(( noinline )) void twoCalls( int at )
{
  Step const f = next( at + 1 );
  if( g_path[ at + 1 ] % 2 )
  {
    CALLED( at, "trc::twoCalls(int)" ); f( at + 1 );
    AFTER;
  }
  else
  {
    asm volatile ( "nop" );
    CALLED( at, "trc::twoCalls(int)" ); f( at + 1 );
    asm volatile ( "nop\nnop" ::: "memory" );
  }
  asm volatile ( "nop" );
}
/// Never returns, its call is the last instruction.
__attribute__(( noinline, noreturn )) void final( int at )
{
  typedef __attribute__(( noreturn )) void ( * NoReturn )( int );
  NoReturn const f = ( NoReturn ) next( at + 1 );
  CALLED( at, "trc::final(int)" ); f( at + 1 );
}
/// Placed behind final.
__attribute__(( noinline )) void behind( int at )
{
  Step const f = next( at + 1 );
  CALLED( at, "trc::behind(int)" ); f( at + 1 );
  AFTER;
}
template< typename T, int N > struct Class
{
  __attribute__(( noinline )) static void member( int at )
  {
    Step const f = next( at + 1 );
    CALLED( at, "trc::Class<long, 3>::member(int)" ); f( at + 1 );
    AFTER;
  }
};
template< typename T > __attribute__(( noinline )) void generic( int at )
{
  Step const f = next( at + 1 );
  CALLED( at, "void trc::generic<char const*>(int)" ); f( at + 1 );
  AFTER;
}
int g_at;
extern "C" __attribute__(( noinline )) int trc_compare( void const *, void const * )
{
  Step const f = next( g_at + 1 );
  CALLED( g_at, "trc_compare" ); f( g_at + 1 );
  AFTER;
  return 0;
}
/// Calls through the C library: a frame of a shared object is in between.
__attribute__(( noinline )) void library( int at )
{
  int values[ 2 ] = { 2, 1 };
  g_libraryBefore[ at ] = true; g_at = at + 1; CALLED( at, "trc::library(int)" ); std::qsort( values, 2, sizeof( int ), trc_compare );
  AFTER;
}
bool g_report;
/// The signal handler for faults.
void handler( int )
{
  {
    std::string t;
    if( g_report )
    {
      // The library's own report, which is printed and has locations.
      std::ostringstream o; auto * const old = std::cout.rdbuf( o.rdbuf() );
      LvArray::system::stackTraceHandler( SIGSEGV, false );
      std::cout.rdbuf( old ); t = o.str();
    }
    else t = LvArray::system::stackTrace( g_location );
    keep( t );
  }
  siglongjmp( g_back, 1 );
}
int * volatile g_null;
/// Faults in its first instructions that are not its prologue.
__attribute__(( noinline, no_sanitize( "address", "undefined" ) )) void fault( int at )
{
  int * const p = g_null; CALLED( at, "trc::fault(int)" );
  AFTER;
  CALLED( at, "trc::fault(int)" ); *( int volatile * ) p = 1; AFTER;
  AFTER;
}
/// Has no frame or prologue: the fault is at the function's address itself.
asm( ".text\n.globl trc_first\n.type trc_first,@function\ntrc_first:\n.cfi_startproc\nmovl $1, 0\nret\n.cfi_endproc\n.size trc_first, .-trc_first\n" );
extern "C" void trc_first( int );

// Code that claims to come from files with names of many lengths, and from large line numbers.
#define FROM( function ) \
  __attribute__(( noinline )) void function( int at ) \
  { \
    Step const f = next( at + 1 ); \
    CALLED( at, "trc::" #function "(int)" ); f( at + 1 ); \
    AFTER; \
  }
#line 7 "/a.cpp"
FROM( shortName )
#line 123456 "/generated/with spaces/and (parentheses)/file name.cpp"
FROM( oddName )
#line 99 "/a/path/that/needs/63/characters/together/with/its/line/no.hpp"
FROM( mediumName )
#line 1000 "/a/path/of/more/than/five/hundred/characters/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/0123456789/last.cpp"
FROM( longName )
#line 150 "h_trace.cpp"

Step const volatile g_steps[] = { leaf, plain, twoCalls, final, behind, Class< long, 3 >::member, generic< char const * >, library, shortName, oddName, mediumName, longName, leaf, fault, trc_first };
constexpr int NSTEPS = 12, LEAF = 0, FAULT = 13, FIRST = 14;

__attribute__(( noinline )) void start()
{
  Step const f = g_steps[ g_path[ 0 ] ];
  f( 0 );
  AFTER;
}
} // namespace trc

namespace
{
namespace sys = LvArray::system;

std::vector< std::string > parse( std::string const & t )
{
  std::vector< std::string > frames;
  std::istringstream in( t ); std::string line; std::getline( in, line );
  CHECK( line.empty(), "the trace starts with ", line );
  std::getline( in, line );
  std::string const head = line;
  bool ended = false;
  while( std::getline( in, line ) )
  {
    if( line == "=====" ) { ended = true; break; }
    std::string const want = "Frame " + std::to_string( frames.size() ) + ": ";
    CHECK( line.compare( 0, want.size(), want ) == 0, "frame ", frames.size(), " reads ", line );
    frames.push_back( line.substr( want.size() ) );
  }
  CHECK( ended, "no end marker in ", t );
  CHECK_EQ( head, "** StackTrace of " + std::to_string( frames.size() ) + " frames **", "number of frames listed" );
  CHECK( frames.size() <= 25, "number of frames ", frames.size() );
  return frames;
}
bool isAt( std::string const & frame, std::string const & name, char const * file, int line, bool location )
{
  // A file name that isn't absolute may be given relative to the compilation directory, it has no spaces.
  std::string const FILENAME = std::string( file[ 0 ] == '/' && std::strstr( file, "h_trace" ) == nullptr ? file : "h_trace.cpp" ) + ":";
  if( frame.compare( 0, name.size() + 1, name + " " ) != 0 && frame != name ) return false;
  if( !location ) return frame.find( FILENAME ) == std::string::npos;
  std::size_t const at = frame.find( FILENAME + std::to_string( line ) );
  if( at == std::string::npos ) return false;
  std::size_t const end = at + FILENAME.size() + std::to_string( line ).size();
  return end >= frame.size() || !std::isdigit( static_cast< unsigned char >( frame[ end ] ) );
}
/// @return the number of calls before the end.
int generate( Src & s )
{
  using namespace trc;
  int n = 0;
  while( s.more( n, 30, 6 ) ) { g_path[ n ] = static_cast< unsigned char >( 1 + s.choose( NSTEPS - 2 ) ); ++n; if( g_path[ n - 1 ] == 7 ) g_path[ n++ ] = 1; }
  g_location = s.boolean( 0.8 );
  for( bool & b : g_libraryBefore ) b = false;
  for( int & l : g_lines ) l = 0;
  g_length = n;
  return n;
}
void compare( Src & s, std::vector< std::string > const & frames, std::size_t first, int from )
{
  using namespace trc;
  std::size_t f = first;
  std::string all; for( auto const & x : frames ) all += "\n" + x;
  for( int i = from; i >= 0; --i )
  {
    // The frames of the C library itself.
    if( g_libraryBefore[ i ] ) { std::size_t const stop = f + 4; while( f < frames.size() && f < stop && frames[ f ].compare( 0, 5, "trc::" ) != 0 ) ++f; s.label( "through the C library" ); }
    if( f >= frames.size() ) { CHECK( frames.size() == ( g_report ? 24u : 25u ), "the trace ends early, function ", g_names[ i ], " is missing:", all ); s.label( "cut off" ); return; }
    CHECK( isAt( frames[ f ], g_names[ i ], g_files[ i ], g_lines[ i ], g_location ), "frame ", f, " reads ", frames[ f ], ", expected ", g_names[ i ], g_location ? cat( " ", g_files[ i ], ":", g_lines[ i ] ) : std::string(), " in:", all );
    ++f;
  }
  if( frames.size() < ( g_report ? 24u : 25u ) ) CHECK( f < frames.size() && frames[ f ].compare( 0, 12, "trc::start()" ) == 0, "the caller of the path is missing:", all );
}
void callPath( Src & s )
{
  using namespace trc;
  int const n = generate( s );
  g_report = false;
  g_path[ n ] = LEAF;
  LOG( s, "path " << [&]() { std::string t; for( int i = 0; i < n; ++i ) t += char( 'a' + g_path[ i ] ); return t; } () << " locations " << g_location );
  if( n >= 2 && g_location ) s.nontrivial();
  for( int i = 0; i < n; ++i ) if( g_path[ i ] == 11 ) s.label( "file with a long name" );
  for( int i = 0; i < n; ++i ) if( g_path[ i ] == 3 ) s.label( "a call that doesn't return" );
  if( s.boolean( 0.2 ) )
  {
    s.label( "in a thread" );
    std::thread( [&]() { if( !sigsetjmp( g_back, 1 ) ) start(); } ).join();
  }
  else if( !sigsetjmp( g_back, 1 ) ) start();
  std::vector< std::string > const frames = parse( g_trace );
  compare( s, frames, 0, n );
}
void interrupted( Src & s )
{
  using namespace trc;
  int const n = generate( s );
  bool const first = s.boolean( 0.4 );
  g_report = g_location && s.boolean( 0.4 );
  LOG( s, "path " << [&]() { std::string t; for( int i = 0; i < n; ++i ) t += char( 'a' + g_path[ i ] ); return t; } () << " locations " << g_location << ( first ? " fault in first instruction" : " fault" ) );
  if( g_location ) s.nontrivial();
  struct sigaction sa = {}, old;
  sa.sa_handler = handler; sa.sa_flags = SA_NODEFER;
  sigaction( SIGSEGV, &sa, &old );
  struct Restore { struct sigaction & o; ~Restore() { sigaction( SIGSEGV, &o, nullptr ); } } restore{ old };
  g_path[ n ] = static_cast< unsigned char >( first ? FIRST : FAULT );
  if( !sigsetjmp( g_back, 1 ) ) start();
  std::string text( g_trace );
  if( g_report )
  {
    s.label( "stackTraceHandler" );
    std::size_t const end = text.find( '\n' ); CHECK( end != std::string::npos );
    CHECK_EQ( text.substr( 0, end ), "Received signal " + std::to_string( SIGSEGV ) + ": " + strsignal( SIGSEGV ), "the report" );
    text = text.substr( end + 1 );
  }
  std::vector< std::string > frames = parse( text );
  if( g_report )
  {
    CHECK( !frames.empty() && frames[ 0 ].find( "stackTraceHandler" ) != std::string::npos, "frame 0 of the report: ", text );
    frames.erase( frames.begin() );
  }
  std::string all; for( auto const & x : frames ) all += "\n" + x;
  CHECK( frames.size() > 2, "short trace:", all );
  CHECK( frames[ 0 ].compare( 0, 17, "trc::handler(int)" ) == 0, "frame 0 is not the signal handler:", all );
  std::size_t f = 1;
  // The signal trampoline, and what a sanitizer puts in between.
  std::string const want = first ? "trc_first" : "trc::fault(int)";
  while( f < frames.size() && f < 5 && frames[ f ].compare( 0, want.size(), want ) != 0 ) ++f;
  CHECK( f < frames.size() && frames[ f ].compare( 0, want.size(), want ) == 0, "the interrupted function ", want, " is not in the trace:", all );
  if( !first ) CHECK( isAt( frames[ f ], want, g_files[ n ], g_lines[ n ], g_location ), "frame ", f, " reads ", frames[ f ], " expected line ", g_lines[ n ], " in:", all );
  if( n > 0 ) compare( s, frames, f + 1, n - 1 );
}
Registrar r1( "call_path", callPath, 60, "a call path of at least two functions with locations; every frame's function and line compared to the calls made" );
Registrar r2( "interrupted", interrupted, 40, "a fault in a function at the end of a random call path, with locations" );
}
