// C06 signal and error handlers.
#include "Macros.hpp"
#include "system.hpp"
#include "lv.hpp"
#include <cfenv>
#include <csignal>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

namespace
{
namespace sys = LvArray::system;

int const SIGS[] = { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGPOLL, SIGFPE, SIGBUS, SIGSEGV, SIGSYS, SIGPIPE, SIGTERM };
constexpr int NSIGS = sizeof( SIGS ) / sizeof( *SIGS );
/// Not covered by setSignalHandling.
int const OTHERS[] = { SIGUSR1, SIGUSR2, SIGCHLD, SIGWINCH, SIGALRM };
constexpr int NOTHERS = sizeof( OTHERS ) / sizeof( *OTHERS );

volatile int g_calls[ 4 ], g_last[ 4 ];
template< int N > void H( int sig ) { g_calls[ N ] = g_calls[ N ] + 1; g_last[ N ] = sig; }
using handler = void ( * )( int );
handler const HANDLERS[] = { H< 0 >, H< 1 >, H< 2 >, H< 3 >, SIG_DFL, SIG_IGN };
char const * const HNAMES[] = { "h0", "h1", "h2", "h3", "SIG_DFL", "SIG_IGN", "siginfo h2", "siginfo h3" };

handler current( int sig )
{
  struct sigaction sa; sigaction( sig, nullptr, &sa );
  return sa.sa_handler;
}
int index( handler h ) { for( int i = 0; i < 6; ++i ) if( HANDLERS[ i ] == h ) return i; return 99; }

/// Handlers that need SA_SIGINFO, 6 and 7 in the model.
volatile bool g_noInfo = false;
template< int N > void HI( int sig, siginfo_t * info, void * ) { g_calls[ N ] = g_calls[ N ] + 1; g_last[ N ] = sig; if( info == nullptr || info->si_signo != sig || info->si_pid != getpid() ) g_noInfo = true; }
using infoHandler = void ( * )( int, siginfo_t *, void * );
infoHandler const INFO_HANDLERS[] = { HI< 2 >, HI< 3 > };
int const FLAGS[] = { SA_NODEFER, SA_RESTART, SA_ONSTACK, SA_NOCLDSTOP };

/// What is installed for a signal. The library may choose the flags and the mask of what it installs itself.
struct Disposition
{
  int h = 4;            // Index into HANDLERS, 6 and above into INFO_HANDLERS.
  bool exact = false;   // The flags and the mask are known.
  int flags = 0;
  unsigned mask = 0;    // Bit i is OTHERS[ i ].
};
Disposition installed( int sig )
{
  struct sigaction sa; sigaction( sig, nullptr, &sa );
  Disposition d; d.exact = true;
  if( sa.sa_flags & SA_SIGINFO ) d.h = sa.sa_sigaction == INFO_HANDLERS[ 0 ] ? 6 : sa.sa_sigaction == INFO_HANDLERS[ 1 ] ? 7 : 98;
  else d.h = index( sa.sa_handler );
  for( int f : FLAGS ) d.flags |= sa.sa_flags & f;
  for( int i = 0; i < NOTHERS; ++i ) d.mask |= unsigned( sigismember( &sa.sa_mask, OTHERS[ i ] ) ) << i;
  return d;
}
/// Install as a user would and return what the signal's disposition now is.
Disposition userInstalls( int sig, int h, int flags, unsigned mask )
{
  struct sigaction sa {};
  sa.sa_flags = flags;
  if( h >= 6 ) { sa.sa_flags |= SA_SIGINFO; sa.sa_sigaction = INFO_HANDLERS[ h - 6 ]; }
  else sa.sa_handler = HANDLERS[ h ];
  sigemptyset( &sa.sa_mask );
  for( int i = 0; i < NOTHERS; ++i ) if( mask >> i & 1 ) sigaddset( &sa.sa_mask, OTHERS[ i ] );
  sigaction( sig, &sa, nullptr );
  return installed( sig );
}
void checkDisposition( int sig, Disposition const & want, std::string const & when )
{
  Disposition const got = installed( sig );
  CHECK_EQ( got.h, want.h, "disposition of signal ", sig, " ", when );
  if( !want.exact ) return;
  CHECK_EQ( got.flags, want.flags, "flags of the disposition of signal ", sig, " ", when );
  CHECK_EQ( got.mask, want.mask, "mask of the disposition of signal ", sig, " ", when );
}

struct Op { int kind, h, sig; int flags = 0; unsigned mask = 0; };

void signals( Src & s )
{
  std::vector< Op > ops;
  int sets = 0, resets = 0, infos = 0;
  while( s.more( ops.size(), 40, 12 ) )
  {
    Span sp( s );
    // 0 set, 1 reset, 2 deliver, 3 the user installs a handler directly, 4 a stack trace that does not exit,
    // 5 the user installs with sigaction.
    Op op { static_cast< int >( s.weighted( { 4, 3, 4, 2, 1, 3 } ) ), static_cast< int >( s.choose( 5 ) ), static_cast< int >( s.choose( NSIGS + NOTHERS - 1 ) ) };
    if( op.kind == 5 )
    {
      op.h = static_cast< int >( s.choose( 7 ) );
      for( int f : FLAGS ) if( s.boolean( 0.3 ) ) op.flags |= f;
      op.mask = static_cast< unsigned >( s.choose( ( 1 << NOTHERS ) - 1 ) );
      infos += op.h >= 6;
    }
    ops.push_back( op );
    sets += op.kind == 0; resets += op.kind == 1;
    static char const * const names[] = { "set", "reset", "raise", "user handler", "trace", "sigaction" };
    LOG( s, names[ op.kind ] << " " << HNAMES[ op.h ] << " sig " << op.sig << " flags " << op.flags << " mask " << op.mask );
  }
  s.label( sets >= 2 && resets ? "several sets and a reset" : "fewer" );
  if( infos ) s.label( "a handler taking siginfo" );
  if( sets && resets ) s.nontrivial();
  std::string out;
  Outcome const o = runExpectingError( [&]()
  {
    std::map< int, Disposition > model, initial;
    std::vector< int > all( SIGS, SIGS + NSIGS ); all.insert( all.end(), OTHERS, OTHERS + NOTHERS );
    for( int sig : all ) { std::signal( sig, SIG_DFL ); model[ sig ] = installed( sig ); }
    bool recorded = false;
    std::size_t i = 0;
    for( ; i < ops.size(); ++i )
    {
      Op const & op = ops[ i ];
      int const sig = all[ static_cast< std::size_t >( op.sig ) ];
      switch( op.kind )
      {
        case 0:
          sys::setSignalHandling( HANDLERS[ op.h ] );
          if( !recorded ) { initial = model; recorded = true; }
          for( int g : SIGS ) { model[ g ] = Disposition {}; model[ g ].h = op.h; }
          break;
        case 1:
          sys::resetSignalHandling();
          if( recorded ) for( int g : SIGS ) model[ g ] = initial[ g ];
          recorded = false;
          break;
        case 2:
        {
          int before[ 4 ]; for( int k = 0; k < 4; ++k ) before[ k ] = g_calls[ k ];
          int const h = model[ sig ].h >= 6 ? model[ sig ].h - 4 : model[ sig ].h;
          if( h == 4 && sig != SIGCHLD && sig != SIGWINCH ) break;   // The default action ends the process.
          raise( sig );
          for( int k = 0; k < 4; ++k ) CHECK_EQ( g_calls[ k ], before[ k ] + ( k == h ), "calls of handler ", k, " after signal ", sig, " at op ", i );
          if( h < 4 ) CHECK_EQ( g_last[ h ], sig );
          CHECK( !g_noInfo, "signal ", sig, " at op ", i, " reached its handler without the signal's information" );
          break;
        }
        case 3: std::signal( sig, HANDLERS[ op.h ] ); model[ sig ] = installed( sig ); break;
        case 5: model[ sig ] = userInstalls( sig, op.h, op.flags, op.mask ); break;
        default: { lv::NullBuf nb; auto * const old = std::cout.rdbuf( &nb ); sys::stackTraceHandler( sig, false ); std::cout.rdbuf( old ); }
      }
      for( int g : all ) checkDisposition( g, model[ g ], cat( "after op ", i ) );
    }
    // The first reset after the history puts back what was there before the first set.
    sys::resetSignalHandling();
    if( recorded ) for( int g : SIGS ) model[ g ] = initial[ g ];
    for( int g : all ) checkDisposition( g, model[ g ], "after the final reset" );
  }, &out );
  if( o != Outcome::COMPLETED ) fail( cat( "history ended with ", toString( o ), ": ", out.substr( 0, 3000 ) ) );
}

std::vector< int > g_trace;

void errors( Src & s )
{
  // 0 set handler k, 1 call, 2 macro error, 3 set null (throws through the current handler), 4 handler that throws
  std::vector< Op > ops;
  int n = 0;
  while( s.more( ops.size(), 30, 10 ) )
  {
    Span sp( s );
    Op op { static_cast< int >( s.weighted( { 4, 4, 3, 1, 1 } ) ), ++n, static_cast< int >( s.choose( 1 ) ) };
    ops.push_back( op );
    LOG( s, "op " << op.kind << " id " << op.h );
  }
  bool const finalAbort = s.boolean( 0.1 );
  if( ops.size() >= 3 ) s.nontrivial();
  s.label( finalAbort ? "ends at the default handler" : "history" );
  std::string out;
  int status = 0;
  if( finalAbort )
  {
    // Nothing installed a handler in a fresh executable; here the nearest is a handler that aborts as the default does.
    Outcome const o = runExpectingError( [&]() { sys::setErrorHandler( []() { std::abort(); } ); LVARRAY_ERROR( "x" ); }, &out, &status );
    CHECK( o == Outcome::CRASHED && WIFSIGNALED( status ) && WTERMSIG( status ) == SIGABRT, "an aborting error handler did not abort: ", status );
    return;
  }
  Outcome const o = runExpectingError( [&]()
  {
    g_trace.clear();
    lv::NullBuf nb; auto * const old = std::cout.rdbuf( &nb );
    std::vector< int > expected;
    int cur = 0; bool throws = false;
    auto shared = std::make_shared< int >( 0 );   // Captured state must live as long as the handler.
    sys::setErrorHandler( [shared]() { g_trace.push_back( 0 ); } );
    for( Op const & op : ops )
    {
      switch( op.kind )
      {
        case 0: { int const id = op.h; auto big = std::make_shared< std::vector< int > >( 100, id ); sys::setErrorHandler( [big]() { g_trace.push_back( ( *big )[ 99 ] ); } ); cur = id; throws = false; break; }
        case 4: { int const id = op.h; sys::setErrorHandler( [id]() { g_trace.push_back( id ); throw lv::LibError {}; } ); cur = id; throws = true; break; }
        case 1:
        case 2:
        {
          bool threw = false;
          try { if( op.kind == 1 ) sys::callErrorHandler(); else { LVARRAY_ERROR_IF( op.sig == op.sig, "message" ); } }
          catch( lv::LibError const & ) { threw = true; }
          expected.push_back( cur );
          CHECK_EQ( threw, throws, "handler ", cur, " exception propagation" );
          break;
        }
        default:
          // A null handler is an error, reported to the current handler. When that throws it stays installed.
          if( throws )
          {
            bool threw = false;
            try { sys::setErrorHandler( nullptr ); } catch( lv::LibError const & ) { threw = true; }
            CHECK( threw, "installing a null handler was not reported" );
            expected.push_back( cur );
          }
      }
      CHECK_EQ( g_trace.size(), expected.size(), "number of handler calls" );
      CHECK( g_trace == expected, "handlers called ", g_trace.back(), " expected ", expected.back() );
    }
    std::cout.rdbuf( old );
  }, &out );
  if( o != Outcome::COMPLETED ) fail( cat( "history ended with ", toString( o ), ": ", out.substr( 0, 3000 ) ) );
}

/// The handler the library offers for installation: prints the signal and a trace, then ends in the error handler.
void handlerSignal( int sig ) { sys::stackTraceHandler( sig, true ); }
bool has( std::string const & t, std::string const & n ) { return t.find( n ) != std::string::npos; }

__attribute__(( noinline )) int deep( int n, bool location, std::string & out, std::function< void() > const & f )
{
  if( n == 0 ) { f(); return 1; }
  volatile int k = deep( n - 1, location, out, f );
  return k + 1;
}
void checkTrace( std::string const & t, int depth )
{
  // Frames are numbered 0, 1, 2, ... one per line; at most 25 of them.
  std::size_t at = t.find( "** StackTrace of " );
  CHECK( at != std::string::npos, "no stack trace in: ", t );
  int n = 0;
  std::istringstream lines( t.substr( at ) ); std::string line; std::getline( lines, line );
  bool ended = false;
  while( std::getline( lines, line ) )
  {
    if( line == "=====" ) { ended = true; break; }
    std::string const want = "Frame " + std::to_string( n ) + ": ";
    CHECK( line.compare( 0, want.size(), want ) == 0, "frame ", n, " reads ", line );
    CHECK( line.size() > want.size(), "frame ", n, " has no function" );
    ++n;
  }
  CHECK( ended, "the trace has no end marker" );
  CHECK( n >= 1 && n <= 25, "number of frames ", n );
  CHECK( n >= ( depth < 25 ? depth : 25 ), "the trace lists ", n, " frames at recursion depth ", depth );
}
void traceHandler( Src & s )
{
  int const sig = s.boolean( 0.7 ) ? SIGS[ s.choose( NSIGS - 1 ) ] : s.integer< int >( -3, 70 );
  int const mode = static_cast< int >( s.choose( 3 ) );
  int const depth = static_cast< int >( s.choose( 60 ) );
  int flags = 0; for( int b : { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT } ) if( s.boolean( 0.4 ) ) flags |= b;
  LOG( s, "signal " << sig << " mode " << mode << " depth " << depth << " flags " << flags );
  s.nontrivial();
  std::string out; int status = 0;
  bool const real = mode == 0;   // Deliver the signal; otherwise call the function.
  if( real )
  {
    bool covered = false; for( int g : SIGS ) covered |= g == sig;
    if( !covered ) return;
    s.label( "signal delivered" );
    Outcome const o = runExpectingError( [&]()
    {
      sys::setErrorHandler( []() { for( int g : SIGS ) if( current( g ) != SIG_DFL ) { std::printf( "handler left for %d\n", g ); std::fflush( nullptr ); _exit( 5 ); } expectedErrorExit(); } );
      sys::setSignalHandling( handlerSignal );
      deep( depth, true, out, [&]() { raise( sig ); } );
      std::printf( "returned" );
    }, &out, &status );
    CHECK( o == Outcome::ERROR_REPORTED, "signal ", sig, " ended with ", toString( o ), " status ", status, ": ", out.substr( 0, 2000 ) );
  }
  else
  {
    bool const exits = mode == 1;
    s.label( exits ? "called, exits" : "called, returns" );
    Outcome const o = runExpectingError( [&]()
    {
      sys::setErrorHandler( []() { expectedErrorExit(); } );
      deep( depth, true, out, [&]() { feclearexcept( FE_ALL_EXCEPT ); feraiseexcept( flags ); sys::stackTraceHandler( sig, exits ); } );
    }, &out, &status );
    CHECK( o == ( exits ? Outcome::ERROR_REPORTED : Outcome::COMPLETED ), "stackTraceHandler( ", sig, ", ", exits, " ) ended with ", toString( o ), ": ", out.substr( 0, 2000 ) );
    if( sig == SIGFPE )
    {
      std::string const line = out.substr( out.find( "Floating point exception:" ) );
      std::pair< int, char const * > const names[] = { { FE_DIVBYZERO, " Division by zero;" }, { FE_INVALID, " Invalid argument;" }, { FE_OVERFLOW, " Overflow;" }, { FE_UNDERFLOW, " Underflow;" } };
      for( auto const & p : names ) CHECK_EQ( has( out, p.second ), ( flags & p.first ) != 0, "flag ", p.second, " for flags ", flags, " in ", out.substr( 0, 300 ) );
    }
  }
  bool const valid = sig >= 0 && sig < NSIG;
  CHECK_EQ( has( out, "Received signal " + std::to_string( sig ) + ": " ), valid, "for signal ", sig, " printed ", out.substr( 0, 300 ) );
  if( valid ) CHECK( has( out, strsignal( sig ) ), "the signal's name is missing: ", out.substr( 0, 300 ) );
  checkTrace( out, depth );
}
void traces( Src & s )
{
  int const depth = static_cast< int >( s.choose( 80 ) );
  bool const location = s.boolean();
  LOG( s, "stackTrace at depth " << depth );
  s.nontrivial();
  std::string out;
  deep( depth, location, out, [&]() { out = sys::stackTrace( location ); } );
  checkTrace( out, depth );
}
Registrar r1( "signal_history", signals, 3000, "history with at least one set and one reset; every disposition compared to a model after each step" );
Registrar r2( "error_handler_history", errors, 2000, "at least three operations; the sequence of handlers called compared to a model" );
Registrar r3( "trace_handler", traceHandler, 1500, "a signal delivered, or the library's signal handler called, at a random depth and with random FP flags; all count" );
Registrar r4( "stack_trace", traces, 1500, "a stack trace at a random recursion depth; all count" );
}
