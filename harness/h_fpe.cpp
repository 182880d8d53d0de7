// C05 floating point exceptions: the trap mask after every operation of a history, and real traps.
#include "system.hpp"
#include "lv.hpp"
#include <cfenv>
#include <cfloat>
#include <csignal>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

namespace
{
namespace sys = LvArray::system;
int const BITS[] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT };
constexpr int DEFAULT = FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID;

int drawMask( Src & s )
{
  int m = 0;
  for( int b : BITS ) if( s.boolean( 0.45 ) ) m |= b;
  return m;
}

/// The flags the hardware raises for each probe.
int const PROBE_RAISES[] = { FE_DIVBYZERO, FE_INVALID, FE_OVERFLOW | FE_INEXACT, FE_UNDERFLOW | FE_INEXACT, FE_INEXACT, 0 };
template< typename T > void probe( int k )
{
  volatile T big = sizeof( T ) == 8 ? T( DBL_MAX ) : T( FLT_MAX ), tiny = sizeof( T ) == 8 ? T( DBL_MIN ) : T( FLT_MIN ), one = 1, zero = 0, three = 3, two = 2, r;
  switch( k )
  {
    case 0: r = one / zero; break;
    case 1: r = zero / zero; break;
    case 2: r = big * big; break;
    case 3: r = tiny * tiny; break;
    case 4: r = one / three; break;
    default: r = one / two;
  }
  ( void ) r;
}
/// Runs f in a child with default SIGFPE handling, true if it died of SIGFPE.
template< typename F > int inChild( F && f )
{
  pid_t const pid = fork();
  if( pid == 0 ) { std::signal( SIGFPE, SIG_DFL ); _exit( f() ); }
  int st = 0; waitpid( pid, &st, 0 );
  return WIFSIGNALED( st ) ? -WTERMSIG( st ) : WEXITSTATUS( st );
}
/// 1 if results and 2 if operands that are denormal are flushed to zero. Needs the underflow, inexact traps off.
template< typename T > int flushes()
{
  volatile T tiny = sizeof( T ) == 8 ? T( DBL_MIN ) : T( FLT_MIN ), half = T( 1 ) / 2, r = tiny * half;
  volatile T denorm = sizeof( T ) == 8 ? T( 4.9406564584124654e-324 ) : T( 1.4e-45f ), scale = sizeof( T ) == 8 ? T( 0x1p1000 ) : T( 0x1p100f ), q = denorm * scale;
  T const a = r, b = q;
  unsigned char za[ sizeof( T ) ], zb[ sizeof( T ) ], z[ sizeof( T ) ] = {};
  std::memcpy( za, &a, sizeof a ); std::memcpy( zb, &b, sizeof b );
  return ( std::memcmp( za, z, sizeof z ) == 0 ) + 2 * ( std::memcmp( zb, z, sizeof z ) == 0 );
}

struct Op { int kind, mask, probe; };

void history( Src & s )
{
  std::vector< Op > ops;
  std::size_t depth = 0;
  // The history is drawn before traps are enabled: the generator itself computes with doubles.
  while( s.more( ops.size(), 40, 12 ) )
  {
    Span sp( s );
    std::size_t const k = s.weighted( { 3, 3, 3, 3, 2, 1, 1, 1, 1 } );
    Op op { static_cast< int >( k ), drawMask( s ), static_cast< int >( s.choose( 11 ) ) };
    if( k == 2 || k == 8 ) ++depth;
    if( k == 3 ) { if( depth == 0 ) op.kind = 0; else --depth; }
    ops.push_back( op );
    static char const * const names[] = { "enable", "disable", "guard", "end guard", "probe", "setFPE", "enable default", "disable default", "default guard" };
    LOG( s, names[ op.kind ] << " mask " << op.mask << " probe " << op.probe );
    s.label( names[ op.kind ] );
  }
  s.label( depth > 1 ? "nested guards left open" : "guards balanced" );
  if( ops.size() >= 2 ) s.nontrivial();
  std::string out;
  Outcome const o = runExpectingError( [&]()
  {
    std::feclearexcept( FE_ALL_EXCEPT );
    fedisableexcept( FE_ALL_EXCEPT );
    int model = 0;
    bool flush = false;
    std::vector< std::pair< std::unique_ptr< sys::FloatingPointExceptionGuard >, int > > guards;
    CHECK_EQ( sys::getDefaultFloatingPointExceptions(), DEFAULT );
    std::size_t i = 0;
    auto after = [&]( char const * what ) { CHECK_EQ( fegetexcept(), model, "trap mask after op ", i, " ", what ); CHECK_EQ( std::fetestexcept( FE_ALL_EXCEPT ), 0, "flags raised by op ", i, " ", what ); };
    auto doProbe = [&]( int p )
    {
      int const k = p % 6;
      bool const expectTrap = ( PROBE_RAISES[ k ] & model ) != 0;
      int const r = inChild( [&]() { if( p >= 6 ) probe< float >( k ); else probe< double >( k ); return 0; } );
      CHECK_EQ( r, expectTrap ? -SIGFPE : 0, "probe ", p, " with mask ", model, " after op ", i );
    };
    for( ; i < ops.size(); ++i )
    {
      Op const & op = ops[ i ];
      switch( op.kind )
      {
        case 0: { int const prev = sys::enableFloatingPointExceptions( op.mask ); CHECK_EQ( prev, model, "enable's previous mask" ); model |= op.mask; after( "enable" ); break; }
        case 1: { int const prev = sys::disableFloatingPointExceptions( op.mask ); CHECK_EQ( prev, model, "disable's previous mask" ); model &= ~op.mask; after( "disable" ); break; }
        case 2: guards.emplace_back( std::make_unique< sys::FloatingPointExceptionGuard >( op.mask ), model ); model &= ~op.mask; after( "guard" ); break;
        case 8: guards.emplace_back( std::make_unique< sys::FloatingPointExceptionGuard >(), model ); model &= ~DEFAULT; after( "default guard" ); break;
        case 3: model |= guards.back().second; guards.pop_back(); after( "guard destruction" ); break;
        case 4: doProbe( op.probe ); break;
        case 5: sys::setFPE(); model |= DEFAULT; flush = true; after( "setFPE" ); break;
        case 6: { int const prev = sys::enableFloatingPointExceptions(); CHECK_EQ( prev, model ); model |= DEFAULT; after( "enable default" ); break; }
        case 7: { int const prev = sys::disableFloatingPointExceptions(); CHECK_EQ( prev, model ); model &= ~DEFAULT; after( "disable default" ); break; }
      }
    }
    while( !guards.empty() ) { model |= guards.back().second; guards.pop_back(); after( "final guard destruction" ); }
    doProbe( ops.empty() ? 0 : ops.back().probe );
    // Denormals are flushed once setFPE has been called, and only then.
    int const fl = inChild( []() { fedisableexcept( FE_ALL_EXCEPT ); return flushes< double >() * 4 + flushes< float >(); } );
    CHECK_EQ( fl, flush ? 15 : 0, "denormal handling (3 = results and operands flushed), double * 4 + float" );
  }, &out );
  if( o != Outcome::COMPLETED ) fail( cat( "history ended with ", toString( o ), ": ", out.substr( 0, 3000 ) ) );
}
Registrar r1( "fpe_history", history, 1600, "history of at least two enable/disable/guard/setFPE operations, trap mask compared to a model after each; probes execute trapping float and double operations in a child" );
}
