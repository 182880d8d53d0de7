// Property based testing engine used by every harness in /verif.
//
// A test case is a function of a finite sequence of choices (integers).  In random mode the choices come from a
// PRNG seeded by (VERIF_SEED, target, case number); in fuzz mode they are decoded from libFuzzer's bytes; in replay
// and shrink mode they come from a recorded sequence.  Shrinking edits the sequence, so every generator shrinks.
// Cases run in a forked worker; the choices of the running case live in shared memory, so a crash, a sanitizer
// report, an unexpected library error or a hang is attributed to the exact case and shrunk like any other failure.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt
{

struct Failure { std::string msg; };
struct Discard {};

constexpr std::size_t MAX_CHOICES = std::size_t( 1 ) << 18;
constexpr std::size_t MAX_SPANS = std::size_t( 1 ) << 15;
constexpr std::size_t MAX_MSG = 1 << 15;

struct Shared
{
  volatile std::uint64_t nChoices;
  volatile std::uint64_t nSpans;
  volatile std::uint64_t caseIndex;
  volatile std::uint64_t failed;
  std::uint64_t choices[ MAX_CHOICES ];
  std::uint64_t spans[ 2 * MAX_SPANS ];
  char msg[ MAX_MSG ];
  volatile std::uint64_t traceLen;
  char trace[ MAX_MSG ];
};
extern Shared * g_shared;

class Src
{
public:
  enum class Mode { RANDOM, REPLAY, BYTES };

  static Src random( std::uint64_t seed, int size ) { Src s; s.m_mode = Mode::RANDOM; s.m_state = seed; s.m_size = size; return s; }
  static Src replay( std::vector< std::uint64_t > c, int size = 100 ) { Src s; s.m_mode = Mode::REPLAY; s.m_replay = std::move( c ); s.m_size = size; return s; }
  static Src bytes( std::uint8_t const * d, std::size_t n ) { Src s; s.m_mode = Mode::BYTES; s.m_bytes = d; s.m_nBytes = n; s.m_size = 100; return s; }

  /// A choice in [0, bound]; sampler gives the random mode distribution.  0 is the simplest value.
  template< typename F >
  std::uint64_t choose( std::uint64_t bound, F && sampler )
  {
    std::uint64_t v = 0;
    if( m_mode == Mode::RANDOM ) v = sampler();
    else if( m_mode == Mode::REPLAY ) v = m_pos < m_replay.size() ? m_replay[ m_pos++ ] : 0;
    else v = fromBytes( bound );
    if( v > bound ) v = bound;
    record( v );
    return v;
  }
  /// A choice made from one probability in [0, 1); fuzzer bytes give that probability, so they follow the same distribution.
  template< typename F >
  std::uint64_t chooseP( std::uint64_t bound, F && f )
  {
    if( m_mode != Mode::BYTES ) return choose( bound, [&]() { return f( unit() ); } );
    std::uint64_t v = f( m_pos < m_nBytes ? m_bytes[ m_pos++ ] / 256.0 : 0.0 );
    if( v > bound ) v = bound;
    record( v );
    return v;
  }
  std::uint64_t choose( std::uint64_t bound ) { return choose( bound, [&]() { return uniform( bound ); } ); }

  /// Integer in [lo, hi], uniform, shrinks to lo.
  template< typename T > T range( T lo, T hi )
  {
    if( hi < lo ) hi = lo;
    return static_cast< T >( static_cast< std::uint64_t >( lo ) + choose( static_cast< std::uint64_t >( hi ) - static_cast< std::uint64_t >( lo ) ) );
  }
  bool boolean( double p = 0.5 ) { return chooseP( 1, [&]( double u ) -> std::uint64_t { return u >= 1 - p; } ) != 0; }
  /// Index into a list of weights, shrinks to 0.
  std::size_t weighted( std::vector< double > const & w )
  {
    return chooseP( w.size() - 1, [&]( double u ) -> std::uint64_t
    {
      double total = 0; for( double x : w ) total += x;
      double r = u * total;
      for( std::size_t i = 0; i < w.size(); ++i ) { if( r < w[ i ] ) return i; r -= w[ i ]; }
      return w.size() - 1;
    } );
  }
  template< typename C > auto const & pick( C const & c ) { return c[ choose( c.size() - 1 ) ]; }

  /// Continue a variable length history: expected number of trues grows with the case size up to mean.
  bool more( std::size_t soFar, std::size_t maxCount, double mean )
  {
    if( soFar >= maxCount ) return false;
    double const m = 1 + mean * m_size / 100.0;
    return chooseP( 1, [&]( double u ) -> std::uint64_t { return u >= 1 / ( m + 1 ); } ) != 0;
  }
  /// By how much to multiply the sizes of this case: mostly one, sometimes much.
  long large( long most, double p = 0.03 )
  {
    if( !boolean( p ) ) return 1;
    label( "large sizes" );
    return range< long >( 2, most );
  }
  /// A length in [0, max], mixing small, uniform and boundary lengths, scaled by the case size.
  std::size_t length( std::size_t maxLen )
  {
    std::uint64_t const cap = maxLen;
    return choose( maxLen, [&]() -> std::uint64_t
    {
      std::uint64_t const scaled = 1 + cap * m_size / 100;
      double const r = unit();
      if( r < 0.35 ) return uniform( scaled < 8 ? scaled : 8 );
      if( r < 0.95 ) return uniform( scaled < cap ? scaled : cap );
      return cap - uniform( cap < 2 ? cap : 2 );
    } );
  }
  /// Integral value in [lo, hi] biased to boundaries, zero, and powers of two; shrinks towards zero (or the nearest bound).
  template< typename T > T integer( T lo = std::numeric_limits< T >::lowest(), T hi = std::numeric_limits< T >::max() )
  {
    using W = __int128;
    W const L = lo, H = hi;
    W const origin = L > 0 ? L : ( H < 0 ? H : 0 );
    auto clampW = [&]( W v ) { return v < L ? L : ( v > H ? H : v ); };
    auto encode = [&]( W v ) -> std::uint64_t
    {
      // zig zag around origin, saturating where one side is exhausted.
      W const up = H - origin, down = origin - L;
      W const m = up < down ? up : down;
      W const d = v - origin;
      W const a = d < 0 ? -d : d;
      if( a <= m ) return static_cast< std::uint64_t >( d > 0 ? 2 * a - 1 : 2 * a );
      return static_cast< std::uint64_t >( m + a );
    };
    auto decode = [&]( std::uint64_t c ) -> W
    {
      W const up = H - origin, down = origin - L;
      W const m = up < down ? up : down;
      if( W( c ) <= 2 * m ) { W const a = ( W( c ) + 1 ) / 2; return ( c & 1 ) ? origin + a : origin - a; }
      W const a = W( c ) - m;
      return up > down ? origin + a : origin - a;
    };
    std::uint64_t const bound = static_cast< std::uint64_t >( H - L );
    std::uint64_t const c = choose( bound, [&]() -> std::uint64_t
    {
      double const r = unit();
      W v;
      if( r < 0.15 ) v = L + W( uniform( 3 ) );
      else if( r < 0.30 ) v = H - W( uniform( 3 ) );
      else if( r < 0.50 ) v = W( uniform( 32 ) ) - 16;
      else if( r < 0.75 )
      {
        W p = W( 1 ) << uniform( 64 );
        if( uniform( 1 ) ) p = -p;
        v = p + W( uniform( 4 ) ) - 2;
      }
      else v = L + W( uniform( bound ) );
      return encode( clampW( v ) );
    } );
    return static_cast< T >( decode( c ) );
  }
  /// Finite or special floating point values.
  double real( bool special = true )
  {
    static double const simple[] = { 0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, -2.0, 10.0, 1e-3, -1e3, 1e10, -1e-10, 0.1, 1.5, -0.0 };
    std::size_t const k = weighted( { 4, 3, 3, special ? 1.0 : 0.0 } );
    if( k == 0 ) return simple[ choose( 15 ) ];
    if( k == 1 ) return static_cast< double >( range< std::int64_t >( 0, 2000000 ) - 1000000 ) / 1000.0;
    if( k == 2 || !special )
    {
      int const e = static_cast< int >( range< std::int64_t >( 0, 80 ) ) - 40;
      double const m = 1.0 + static_cast< double >( choose( ( 1ull << 52 ) - 1 ) ) / 4503599627370496.0;
      return ( boolean() ? -1 : 1 ) * std::ldexp( m, e );
    }
    std::uint64_t const bits = choose( ~0ull );
    double d; std::memcpy( &d, &bits, 8 );
    return d;
  }

  int size() const { return m_size; }
  void beginSpan() { m_spanStack.push_back( m_n ); }
  void endSpan()
  {
    std::uint64_t const b = m_spanStack.back(); m_spanStack.pop_back();
    if( g_shared && g_shared->nSpans < MAX_SPANS ) { auto const k = g_shared->nSpans; g_shared->spans[ 2 * k ] = b; g_shared->spans[ 2 * k + 1 ] = m_n; g_shared->nSpans = k + 1; }
  }

  // Classification.
  void label( std::string const & l ) { m_labels.insert( l ); }
  void nontrivial() { m_nontrivial = true; }
  bool tracing = false;
  std::string trace;
  void addTrace( std::string const & x )
  {
    if( trace.size() < 8000 ) { trace += x; trace += "; "; }
    if( g_shared )
    {
      // Kept in shared memory so that it survives a crash. The head is kept, the tail overwritten.
      std::size_t n = x.size(), at = g_shared->traceLen;
      if( at + n + 3 < MAX_MSG ) { std::memcpy( g_shared->trace + at, x.data(), n ); std::memcpy( g_shared->trace + at + n, "; ", 3 ); g_shared->traceLen = at + n + 2; }
    }
  }

  std::set< std::string > m_labels;
  bool m_nontrivial = false;
  std::uint64_t hash() const { return m_hash; }
  std::uint64_t count() const { return m_n; }

private:
  std::uint64_t next()
  {
    std::uint64_t z = ( m_state += 0x9e3779b97f4a7c15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
    return z ^ ( z >> 31 );
  }
  std::uint64_t uniform( std::uint64_t bound ) { return bound == ~0ull ? next() : static_cast< std::uint64_t >( ( static_cast< unsigned __int128 >( next() ) * ( static_cast< unsigned __int128 >( bound ) + 1 ) ) >> 64 ); }
  double unit() { return static_cast< double >( next() >> 11 ) / 9007199254740992.0; }
  std::uint64_t fromBytes( std::uint64_t bound )
  {
    int const nb = bound == 0 ? 0 : bound < 256 ? 1 : bound < 65536 ? 2 : bound < ( 1ull << 32 ) ? 4 : 8;
    std::uint64_t v = 0;
    for( int i = 0; i < nb; ++i ) { v = ( v << 8 ) | ( m_pos < m_nBytes ? m_bytes[ m_pos ] : 0 ); if( m_pos < m_nBytes ) ++m_pos; }
    return bound == ~0ull ? v : v % ( bound + 1 );
  }
  void record( std::uint64_t v )
  {
    if( m_n >= MAX_CHOICES ) throw Discard {};
    if( g_shared ) { g_shared->choices[ m_n ] = v; g_shared->nChoices = m_n + 1; }
    ++m_n;
    m_hash = ( m_hash ^ ( v + 0x9e3779b97f4a7c15ull ) ) * 0x100000001b3ull;
    m_hash ^= m_hash >> 29;
  }

  Mode m_mode = Mode::RANDOM;
  std::uint64_t m_state = 0;
  int m_size = 100;
  std::vector< std::uint64_t > m_replay;
  std::size_t m_pos = 0;
  std::uint8_t const * m_bytes = nullptr;
  std::size_t m_nBytes = 0;
  std::uint64_t m_n = 0;
  std::uint64_t m_hash = 0xcbf29ce484222325ull;
  std::vector< std::uint64_t > m_spanStack;
};

/// RAII span: an operation of a history, deleted as a unit when shrinking.
struct Span
{
  explicit Span( Src & s ): m_s( s ) { m_s.beginSpan(); }
  ~Span() { m_s.endSpan(); }
  Src & m_s;
};

struct Target
{
  char const * name;
  std::function< void( Src & ) > body;
  std::uint64_t quickCases;
  double cpuLimitSeconds;
  bool leakCheck;
  bool fuzz;   // also driven by libFuzzer when the binary is built for it
  char const * rule;
};
std::vector< Target > & targets();
/// Run once in the parent before cases are run in its children, for what is slow to set up; must not run code under test.
inline void ( *g_prepare )() = nullptr;
struct Registrar
{
  Registrar( char const * name, std::function< void( Src & ) > body, std::uint64_t quickCases, char const * rule,
             bool leakCheck = false, bool fuzz = true, double cpuLimitSeconds = 20 )
  { targets().push_back( Target { name, std::move( body ), quickCases, cpuLimitSeconds, leakCheck, fuzz, rule } ); }
};

[[noreturn]] inline void fail( std::string const & m ) { throw Failure { m }; }

/// Outcome of running a piece of code expected to end in the library's error handler.
enum class Outcome { COMPLETED, ERROR_REPORTED, CRASHED, FAILED };
/// Run body in a forked child with an error handler that leaves at once; nothing it does survives.
/// If output is not null it receives what the child wrote to stdout and stderr.
Outcome runExpectingError( std::function< void() > const & body, std::string * output = nullptr, int * status = nullptr );
char const * toString( Outcome o );

/// Installed by the harness glue: makes unexpected library errors fail the running case.
void installLibraryErrorHandler();
/// Used by the glue.
[[noreturn]] void reportLibraryErrorAndExit();
[[noreturn]] void expectedErrorExit();
bool inExpectedErrorChild();

template< typename... A > std::string cat( A const & ... a ) { std::ostringstream o; o.precision( 17 ); ( void ) std::initializer_list< int >{ ( o << a, 0 )... }; return o.str(); }

/// A function, so that temporaries the operands refer to outlive the comparison.
template< typename A, typename B, typename F > void checkEq( A const & a, B const & b, F && f ) { if( !( a == b ) ) f( a, b ); }

} // namespace pbt

#define PBT_CAT2( a, b ) a ## b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
#define CHECK( cond, ... ) do { if( !( cond ) ) ::pbt::fail( ::pbt::cat( __FILE__, ":", __LINE__, ": ", #cond, ": " __VA_OPT__( , ) __VA_ARGS__ ) ); } while( false )
#define CHECK_EQ( a, b, ... ) ::pbt::checkEq( ( a ), ( b ), [&]( auto const & pbt_a, auto const & pbt_b ) { \
  ::pbt::fail( ::pbt::cat( __FILE__, ":", __LINE__, ": ", #a, " == ", #b, ": got ", pbt_a, " expected ", pbt_b, " " __VA_OPT__( , ) __VA_ARGS__ ) ); } )
#define LOG( s, ... ) do { if( ( s ).tracing ) { std::ostringstream pbt_o; pbt_o.precision( 17 ); pbt_o << __VA_ARGS__; ( s ).addTrace( pbt_o.str() ); } } while( false )
