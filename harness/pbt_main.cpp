// Driver of the engine in pbt.hpp: random search, libFuzzer search, shrinking, replay.
#include "pbt.hpp"
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

#if defined( __SANITIZE_ADDRESS__ )
#define PBT_HAVE_ASAN 1
#elif defined( __has_feature )
#if __has_feature( address_sanitizer )
#define PBT_HAVE_ASAN 1
#endif
#endif
#ifdef PBT_HAVE_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( const volatile void *, size_t ), void ( * )( const volatile void * ) );
#endif
#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver( int * argc, char * * * argv, int ( * cb )( std::uint8_t const *, std::size_t ) );
#endif

namespace pbt
{
Shared * g_shared = nullptr;
std::vector< Target > & targets() { static std::vector< Target > t; return t; }

/// Not 77, which is what libFuzzer uses.
constexpr int EXPECTED_ERROR_EXIT = 83;
static bool s_expectChild = false;
bool inExpectedErrorChild() { return s_expectChild; }
void expectedErrorExit() { _exit( EXPECTED_ERROR_EXIT ); }
void reportLibraryErrorAndExit()
{
  if( s_expectChild ) _exit( EXPECTED_ERROR_EXIT );
  if( g_shared ) { std::snprintf( g_shared->msg, MAX_MSG, "the library reported an error on valid use" ); g_shared->failed = 1; }
  std::fflush( nullptr );
  _exit( 99 );
}

char const * toString( Outcome o )
{
  switch( o ) { case Outcome::COMPLETED: return "completed"; case Outcome::ERROR_REPORTED: return "error reported"; case Outcome::CRASHED: return "crashed"; default: return "failed"; }
}

Outcome runExpectingError( std::function< void() > const & body, std::string * output, int * statusOut )
{
  int fds[ 2 ] = { -1, -1 };
  if( output && pipe( fds ) ) fail( "pipe failed" );
  std::fflush( nullptr );
  pid_t const pid = fork();
  if( pid == 0 )
  {
    s_expectChild = true;
    g_shared = nullptr;
    int const devnull = output ? fds[ 1 ] : open( "/dev/null", O_WRONLY );
    dup2( devnull, 1 ); dup2( devnull, 2 );
    // libFuzzer's crash handlers would hide how the child ended.
    for( int sig : { SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM, SIGINT, SIGTERM, SIGXFSZ, SIGUSR1, SIGUSR2 } ) std::signal( sig, SIG_DFL );
    struct rlimit rl { 30, 30 }; setrlimit( RLIMIT_CPU, &rl );
    struct rlimit rc { 0, 0 }; setrlimit( RLIMIT_CORE, &rc );
    try { body(); }
    catch( Failure const & f ) { std::printf( "FAILURE: %s\n", f.msg.c_str() ); std::fflush( nullptr ); _exit( 78 ); }
    catch( ... ) { std::fflush( nullptr ); _exit( 79 ); }
    std::fflush( nullptr );
    _exit( 0 );
  }
  if( output )
  {
    close( fds[ 1 ] );
    char buf[ 4096 ]; ssize_t n;
    while( ( n = read( fds[ 0 ], buf, sizeof buf ) ) > 0 ) output->append( buf, static_cast< std::size_t >( n ) );
    close( fds[ 0 ] );
  }
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  if( statusOut ) *statusOut = status;
  if( WIFEXITED( status ) )
  {
    switch( WEXITSTATUS( status ) )
    {
      case 0: return Outcome::COMPLETED;
      case EXPECTED_ERROR_EXIT: return Outcome::ERROR_REPORTED;
      case 78: case 79: return Outcome::FAILED;
      default: return Outcome::CRASHED;
    }
  }
  return Outcome::CRASHED;
}
} // namespace pbt

using namespace pbt;

namespace
{
// Outstanding allocations, for per case leak detection.
#ifdef PBT_HAVE_ASAN
long g_liveAllocs = 0;
void onMalloc( const volatile void * p, size_t ) { if( p ) __atomic_add_fetch( &g_liveAllocs, 1, __ATOMIC_RELAXED ); }
void onFree( const volatile void * p ) { if( p ) __atomic_sub_fetch( &g_liveAllocs, 1, __ATOMIC_RELAXED ); }
#else
long g_liveAllocs = 0;
#endif

std::uint64_t mix( std::uint64_t z )
{
  z += 0x9e3779b97f4a7c15ull;
  z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull; z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull; return z ^ ( z >> 31 );
}
std::uint64_t hashStr( char const * s ) { std::uint64_t h = 0xcbf29ce484222325ull; for(; *s; ++s ) h = ( h ^ static_cast< unsigned char >( *s ) ) * 0x100000001b3ull; return h; }

std::string jsonStr( std::string const & in )
{
  std::string o = "\"";
  for( unsigned char c : in )
  {
    if( c == '"' || c == '\\' ) { o += '\\'; o += static_cast< char >( c ); }
    else if( c < 32 || c > 126 ) { char b[ 8 ]; std::snprintf( b, 8, "\\u%04x", c ); o += b; }
    else o += static_cast< char >( c );
  }
  return o + "\"";
}

void armTimer( double sec )
{
  struct itimerval it {};
  it.it_value.tv_sec = static_cast< time_t >( sec );
  it.it_value.tv_usec = static_cast< suseconds_t >( ( sec - std::floor( sec ) ) * 1e6 );
  setitimer( ITIMER_PROF, &it, nullptr );
}

struct Stats
{
  std::uint64_t evaluations = 0, nontrivial = 0, discarded = 0;
  std::unordered_set< std::uint64_t > distinct;
  std::map< std::string, std::uint64_t > labels;
  std::vector< std::string > samples;
};

/// Runs one case in this process. Returns false (and fills shared->msg) when it fails.
bool runCase( Target const & t, Src & s, bool & discarded )
{
  discarded = false;
  g_shared->nChoices = 0; g_shared->nSpans = 0; g_shared->failed = 0; g_shared->msg[ 0 ] = 0; g_shared->traceLen = 0; g_shared->trace[ 0 ] = 0;
  armTimer( t.cpuLimitSeconds );
  bool ok = true;
  try { t.body( s ); }
  catch( Discard const & ) { discarded = true; }
  catch( Failure const & f )
  { std::snprintf( g_shared->msg, MAX_MSG, "%s", f.msg.c_str() ); g_shared->failed = 1; ok = false; }
  catch( std::exception const & e )
  { std::snprintf( g_shared->msg, MAX_MSG, "unexpected exception: %s", e.what() ); g_shared->failed = 1; ok = false; }
  armTimer( 0 );
  return ok;
}

template< typename MAKE >
bool runCaseWithLeakCheck( Target const & t, MAKE && make, Src & s, bool & discarded )
{
#ifdef PBT_HAVE_ASAN
  if( t.leakCheck )
  {
    // Only the body's allocations may differ between before and after; s's own trace and label storage is pre-built by
    // measuring on fresh sources whose storage is released inside the measured region.
    auto once = [&]( bool & disc ) -> std::pair< bool, long >
    {
      long const before = __atomic_load_n( &g_liveAllocs, __ATOMIC_RELAXED );
      bool ok;
      { Src f = make(); f.tracing = false; ok = runCase( t, f, disc ); }
      return { ok, __atomic_load_n( &g_liveAllocs, __ATOMIC_RELAXED ) - before };
    };
    bool ok = runCase( t, s, discarded );
    if( !ok || discarded ) return ok;
    bool d = false;
    auto r = once( d );
    if( !r.first ) return false;
    if( !d && r.second > 0 )
    {
      for( int i = 0; i < 2; ++i ) { r = once( d ); if( !r.first ) return false; if( r.second <= 0 ) return true; }
      std::snprintf( g_shared->msg, MAX_MSG, "memory leak: the case leaves %ld allocations behind every time it runs", r.second );
      g_shared->failed = 1;
      return false;
    }
    return true;
  }
#endif
  return runCase( t, s, discarded );
}

struct ChildResult { bool ok; int status; std::string kind; std::string msg; };

std::string describeStatus( int status )
{
  if( WIFSIGNALED( status ) ) return WTERMSIG( status ) == SIGPROF ? "the case did not terminate within its CPU limit" : cat( "killed by signal ", WTERMSIG( status ) );
  return cat( "exit status ", WEXITSTATUS( status ) );
}
std::string kindOf( int status, bool failedFlag )
{
  if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) return "ok";
  if( failedFlag ) return "failure";
  if( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGPROF ) return "hang";
  return "crash";
}

std::string readTail( std::string const & path, std::size_t n )
{
  std::ifstream f( path, std::ios::binary );
  std::string all( ( std::istreambuf_iterator< char >( f ) ), std::istreambuf_iterator< char >() );
  // The head of a sanitizer report is the interesting part.
  std::size_t p = all.find( "ERROR: " );
  if( p == std::string::npos ) p = all.find( "runtime error" );
  if( p == std::string::npos ) p = all.size() > n ? all.size() - n : 0;
  else p = p > 200 ? p - 200 : 0;
  return all.substr( p, n );
}

ChildResult runInChild( Target const & t, std::vector< std::uint64_t > const & choices, int size, std::string const & log, std::string * traceOut = nullptr )
{
  g_shared->nChoices = 0; g_shared->nSpans = 0; g_shared->failed = 0; g_shared->msg[ 0 ] = 0; g_shared->traceLen = 0; g_shared->trace[ 0 ] = 0;
  std::fflush( nullptr );
  pid_t const pid = fork();
  if( pid == 0 )
  {
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    int const fd = open( log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
    dup2( fd, 1 ); dup2( fd, 2 );
    installLibraryErrorHandler();
    Src s = Src::replay( choices, size );
    s.tracing = traceOut != nullptr;
    bool discarded = false;
    bool ok = runCaseWithLeakCheck( t, [&]() { return Src::replay( choices, size ); }, s, discarded );
    std::fflush( nullptr );
    _exit( ok ? 0 : 1 );
  }
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  ChildResult r;
  r.status = status;
  r.ok = WIFEXITED( status ) && WEXITSTATUS( status ) == 0;
  r.kind = kindOf( status, g_shared->failed != 0 );
  r.msg = g_shared->msg;
  if( !r.ok && r.msg.empty() ) r.msg = describeStatus( status );
  if( traceOut ) *traceOut = g_shared->trace;
  return r;
}

struct Shrinker
{
  Target const & t; int size; std::string log; std::string kind;
  std::vector< std::uint64_t > best; std::vector< std::uint64_t > spans;
  std::string msg;
  int evals = 0; int maxEvals = 1200; double maxSeconds = 60;
  std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();

  bool budget() const
  { return evals < maxEvals && std::chrono::duration< double >( std::chrono::steady_clock::now() - start ).count() < maxSeconds; }
  bool attempt( std::vector< std::uint64_t > const & c )
  {
    if( !budget() ) return false;
    ++evals;
    ChildResult r = runInChild( t, c, size, log );
    if( r.ok || r.kind != kind ) return false;
    // Adopt what was actually consumed.
    std::vector< std::uint64_t > used( g_shared->choices, g_shared->choices + g_shared->nChoices );
    if( kind != "failure" ) { /* same */ }
    if( used.size() > c.size() ) used = c;
    if( std::make_pair( used.size(), used ) < std::make_pair( best.size(), best ) )
    {
      best = used;
      spans.assign( g_shared->spans, g_shared->spans + 2 * g_shared->nSpans );
      msg = r.msg;
      return true;
    }
    return false;
  }
  void run()
  {
    bool changed = true;
    while( changed && budget() )
    {
      changed = false;
      // Whole operations.
      for( bool again = true; again && budget(); )
      {
        again = false;
        for( std::size_t k = spans.size() / 2; k-- > 0; )
        {
          std::uint64_t const b = spans[ 2 * k ], e = spans[ 2 * k + 1 ];
          if( e > best.size() || b >= e ) continue;
          auto c = best; c.erase( c.begin() + static_cast< long >( b ), c.begin() + static_cast< long >( e ) );
          if( attempt( c ) ) { changed = again = true; break; }
        }
      }
      // Blocks.
      for( std::size_t len = best.size() / 2; len >= 1 && budget(); len /= 2 )
      {
        for( std::size_t i = best.size(); i >= len && i > 0 && budget(); )
        {
          auto c = best;
          std::size_t const b = i >= len ? i - len : 0;
          if( b + len > c.size() ) { --i; continue; }
          c.erase( c.begin() + static_cast< long >( b ), c.begin() + static_cast< long >( b + len ) );
          if( attempt( c ) ) { changed = true; i = std::min( i, best.size() ); } else { i = b; }
        }
      }
      // Values.
      for( std::size_t i = 0; i < best.size() && budget(); ++i )
      {
        if( best[ i ] == 0 ) continue;
        { auto c = best; c[ i ] = 0; if( attempt( c ) ) { changed = true; continue; } }
        std::uint64_t lo = 0;
        while( i < best.size() && best[ i ] > lo + 1 && budget() )
        {
          std::uint64_t const mid = lo + ( best[ i ] - lo ) / 2;
          auto c = best; c[ i ] = mid;
          if( attempt( c ) ) changed = true; else lo = mid;
        }
        if( i < best.size() && best[ i ] > 0 && budget() ) { auto c = best; c[ i ] -= 1; if( attempt( c ) ) changed = true; }
      }
    }
  }
};

std::string choicesText( std::vector< std::uint64_t > const & c )
{ std::ostringstream o; for( auto v : c ) o << v << ' '; return o.str(); }

struct Options
{
  std::uint64_t seed = 1; double scale = 1; std::string out, replayDir = ".", onlyTarget; int shard = 0, nShards = 1; double seconds = 600;
  std::string harness = "unknown"; std::string scratch = ".";
};

int handleFailure( Target const & t, int size, int status, Options const & opt, std::string const & log, char const * how )
{
  std::vector< std::uint64_t > choices( g_shared->choices, g_shared->choices + g_shared->nChoices );
  std::vector< std::uint64_t > spans( g_shared->spans, g_shared->spans + 2 * g_shared->nSpans );
  std::string msg = g_shared->msg; if( msg.empty() ) msg = describeStatus( status );
  std::string report = readTail( log, 3000 );
  std::string const slog = log + ".shrink";
  // Does it reproduce on its own?
  ChildResult first = runInChild( t, choices, size, slog );
  bool reproduced = !first.ok;
  if( reproduced )
  {
    Shrinker sh { t, size, slog, first.kind, choices, spans, first.msg };
    if( first.kind == "hang" ) { sh.maxEvals = 4; }
    sh.run();
    choices = sh.best; msg = sh.msg;
  }
  std::string tr;
  ChildResult last = runInChild( t, choices, size, slog, &tr );
  // Confirm three times.
  int confirmed = 0;
  for( int i = 0; i < 3; ++i ) confirmed += !runInChild( t, choices, size, slog ).ok;
  if( !last.ok ) report = readTail( slog, 3000 );
  std::string const path = opt.replayDir + "/" + opt.harness + "." + t.name + ".s" + std::to_string( opt.seed ) + ".sh" + std::to_string( opt.shard ) + ( *how == 'f' ? ".fuzz" : "" ) + ".replay";
  std::ofstream f( path );
  f << "harness: " << opt.harness << "\ntarget: " << t.name << "\nsize: " << size << "\nfound by: " << how << "\nconfirmed: " << confirmed << "/3\nmessage: " << msg << "\nchoices: " << choicesText( choices )
    << "\ntrace: " << tr << "\n--- output ---\n" << report << "\n";
  f.close();
  std::printf( "FAIL target=%s confirmed=%d replay=%s message=%s\n", t.name, confirmed, path.c_str(), msg.c_str() );
  std::printf( "  trace: %.3000s\n", tr.c_str() );
  return confirmed == 3 ? 1 : 3;
}

void dumpStats( Target const & t, Stats const & st, Options const & opt, char const * suffix, bool truncated )
{
  std::ofstream f( opt.out + "." + t.name + suffix + ".json" );
  f << "{\"target\":" << jsonStr( t.name ) << ",\"rule\":" << jsonStr( t.rule ) << ",\"evaluations\":" << st.evaluations << ",\"nontrivial\":" << st.nontrivial
    << ",\"discarded\":" << st.discarded << ",\"truncated\":" << ( truncated ? "true" : "false" ) << ",\"labels\":{";
  bool first = true;
  for( auto const & l : st.labels ) { f << ( first ? "" : "," ) << jsonStr( l.first ) << ":" << l.second; first = false; }
  f << "},\"samples\":[";
  first = true;
  for( auto const & s : st.samples ) { f << ( first ? "" : "," ) << jsonStr( s ); first = false; }
  f << "]}\n";
  f.close();
  std::ofstream h( opt.out + "." + t.name + suffix + ".hashes", std::ios::binary );
  for( auto v : st.distinct ) h.write( reinterpret_cast< char const * >( &v ), 8 );
}

void account( Stats & st, Src & s, bool discarded )
{
  ++st.evaluations;
  if( discarded ) { ++st.discarded; return; }
  for( auto const & l : s.m_labels ) ++st.labels[ l ];
  if( s.m_nontrivial )
  {
    ++st.nontrivial;
    if( st.distinct.size() < 400000 ) st.distinct.insert( s.hash() );
    if( s.tracing && st.samples.size() < 3 && !s.trace.empty() ) st.samples.push_back( s.trace.substr( 0, 600 ) );
  }
}

std::uint64_t caseSeed( Options const & opt, Target const & t, std::uint64_t idx )
{ return mix( mix( opt.seed ) ^ hashStr( t.name ) ^ mix( idx + 77 ) ); }
int caseSize( std::uint64_t seed ) { return 1 + static_cast< int >( mix( seed ) % 100 ); }

/// Runs the cases of this shard in a forked worker; returns the worker's wait status.
int runBatch( Target const & t, Options const & opt, std::string const & log, std::uint64_t total, bool writeStats )
{
  std::fflush( nullptr );
  pid_t const pid = fork();
  if( pid == 0 )
  {
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    int const fd = open( log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
    dup2( fd, 1 ); dup2( fd, 2 );
#ifdef PBT_HAVE_ASAN
    __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );
#endif
    installLibraryErrorHandler();
    Stats st;
    auto const start = std::chrono::steady_clock::now();
    bool truncated = false;
    for( std::uint64_t i = 0; i < total; ++i )
    {
      if( ( i & 15 ) == 0 && std::chrono::duration< double >( std::chrono::steady_clock::now() - start ).count() > opt.seconds ) { truncated = true; break; }
      std::uint64_t const idx = i * static_cast< std::uint64_t >( opt.nShards ) + static_cast< std::uint64_t >( opt.shard );
      g_shared->caseIndex = idx;
      std::uint64_t const seed = caseSeed( opt, t, idx );
      int const size = caseSize( seed );
      Src s = Src::random( seed, size );
      s.tracing = i < 200 && ( i > 20 || total < 60 );
      bool discarded = false;
      if( !runCaseWithLeakCheck( t, [&]() { return Src::random( seed, size ); }, s, discarded ) )
      {
        std::fflush( nullptr );
        _exit( 1 );
      }
      account( st, s, discarded );
    }
    if( writeStats ) dumpStats( t, st, opt, "", truncated );
    std::fflush( nullptr );
    _exit( 0 );
  }
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  return status;
}

int runTarget( Target const & t, Options const & opt )
{
  std::string const log = opt.scratch + "/" + opt.harness + "." + t.name + "." + std::to_string( opt.shard ) + ".log";
  std::uint64_t const total = static_cast< std::uint64_t >( static_cast< double >( t.quickCases ) * opt.scale ) / static_cast< std::uint64_t >( opt.nShards ) + 1;
  int const status = runBatch( t, opt, log, total, true );
  if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) return 0;
  std::uint64_t const idx = g_shared->caseIndex;
  int const size = caseSize( caseSeed( opt, t, idx ) );
  int const r = handleFailure( t, size, status, opt, log, "random search" );
  if( r != 3 ) return r;
  // The case fails only after the cases before it: the history of the whole batch is the reproduction.
  std::uint64_t const upTo = idx / static_cast< std::uint64_t >( opt.nShards ) + 1;
  int confirmed = 0;
  std::string msg;
  for( int i = 0; i < 3; ++i )
  {
    int const st = runBatch( t, opt, log + ".batch", upTo, false );
    bool const ok = WIFEXITED( st ) && WEXITSTATUS( st ) == 0;
    if( !ok ) { ++confirmed; msg = g_shared->msg; if( msg.empty() ) msg = describeStatus( st ); }
  }
  std::string const path = opt.replayDir + "/" + opt.harness + "." + t.name + ".s" + std::to_string( opt.seed ) + ".sh" + std::to_string( opt.shard ) + ".batch.replay";
  std::ofstream( path ) << "harness: " << opt.harness << "\ntarget: " << t.name << "\nbatch: " << opt.seed << " " << opt.shard << " " << opt.nShards << " " << upTo
                        << "\nfound by: random search, needs the preceding cases of the batch\nconfirmed: " << confirmed << "/3\nmessage: " << msg << "\n";
  std::printf( "FAIL target=%s confirmed=%d replay=%s message=%s\n", t.name, confirmed, path.c_str(), msg.c_str() );
  return confirmed == 3 ? 1 : 3;
}

#ifdef PBT_FUZZ
Target const * g_fuzzTarget = nullptr;
Stats * g_fuzzStats = nullptr;
Options const * g_fuzzOpt = nullptr;
int fuzzOne( std::uint8_t const * data, std::size_t n )
{
  Src s = Src::bytes( data, n );
  s.tracing = g_fuzzStats->evaluations > 2000 && g_fuzzStats->samples.size() < 2;
  bool discarded = false;
  if( !runCase( *g_fuzzTarget, s, discarded ) ) { std::fflush( nullptr ); _exit( 1 ); }
  account( *g_fuzzStats, s, discarded );
  return 0;
}
void fuzzExit() { if( g_fuzzStats ) dumpStats( *g_fuzzTarget, *g_fuzzStats, *g_fuzzOpt, ".fuzz", false ); }

int fuzzTarget( Target const & t, Options const & opt, std::uint64_t runs )
{
  std::string const log = opt.scratch + "/" + opt.harness + "." + t.name + "." + std::to_string( opt.shard ) + ".fuzz.log";
  std::string const corpus = opt.scratch + "/corpus." + opt.harness + "." + t.name + "." + std::to_string( opt.shard );
  std::fflush( nullptr );
  pid_t const pid = fork();
  if( pid == 0 )
  {
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    int const fd = open( log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
    dup2( fd, 1 ); dup2( fd, 2 );
    installLibraryErrorHandler();
    g_fuzzTarget = &t; g_fuzzOpt = &opt; g_fuzzStats = new Stats;
    std::atexit( fuzzExit );
    std::uint64_t const seed = 1 + mix( opt.seed ^ hashStr( t.name ) ^ static_cast< std::uint64_t >( opt.shard ) ) % 1000000000ull;
    std::vector< std::string > a = { opt.harness, "-runs=" + std::to_string( runs ), "-seed=" + std::to_string( seed ), "-max_len=2048", "-len_control=20",
                                     "-detect_leaks=0", "-rss_limit_mb=6000", "-timeout=200", "-max_total_time=" + std::to_string( static_cast< int >( opt.seconds ) ),
                                     "-use_value_profile=1", "-artifact_prefix=" + opt.scratch + "/", "-print_final_stats=0", "-verbosity=0" };
    std::vector< char * > argv; for( auto & x : a ) argv.push_back( &x[ 0 ] );
    argv.push_back( nullptr );
    int argc = static_cast< int >( a.size() ); char * * av = argv.data();
    std::exit( LLVMFuzzerRunDriver( &argc, &av, fuzzOne ) );
  }
  int status = 0;
  while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
  if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) return 0;
  return handleFailure( t, 100, status, opt, log, "fuzzing" );
}
#endif
}

int main( int argc, char * * argv )
{
  std::string const mode = argc > 1 ? argv[ 1 ] : "list";
  Options opt; std::uint64_t runs = 0; std::string file;
  for( int i = 2; i + 1 < argc; i += 2 )
  {
    std::string const k = argv[ i ], v = argv[ i + 1 ];
    if( k == "--seed" ) opt.seed = std::strtoull( v.c_str(), nullptr, 10 );
    else if( k == "--scale" ) opt.scale = std::atof( v.c_str() );
    else if( k == "--out" ) opt.out = v;
    else if( k == "--replay-dir" ) opt.replayDir = v;
    else if( k == "--target" ) opt.onlyTarget = v;
    else if( k == "--shard" ) opt.shard = std::atoi( v.c_str() );
    else if( k == "--shards" ) opt.nShards = std::atoi( v.c_str() );
    else if( k == "--seconds" ) opt.seconds = std::atof( v.c_str() );
    else if( k == "--harness" ) opt.harness = v;
    else if( k == "--scratch" ) opt.scratch = v;
    else if( k == "--runs" ) runs = std::strtoull( v.c_str(), nullptr, 10 );
    else if( k == "--file" ) file = v;
  }
  struct rlimit rc { 0, 0 }; setrlimit( RLIMIT_CORE, &rc );
  g_shared = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  if( g_shared == MAP_FAILED ) return 2;

  if( mode == "list" )
  {
    for( auto const & t : targets() ) std::printf( "%s %llu %d\n", t.name, static_cast< unsigned long long >( t.quickCases ), t.fuzz ? 1 : 0 );
    return 0;
  }
  if( g_prepare ) g_prepare();
  if( mode == "run" )
  {
    int rv = 0;
    for( auto const & t : targets() )
    {
      if( !opt.onlyTarget.empty() && opt.onlyTarget != t.name ) continue;
      int const r = runTarget( t, opt );
      if( r == 1 ) return 1;
      if( r ) rv = r;
    }
    return rv;
  }
#ifdef PBT_FUZZ
  if( mode == "fuzz" )
  {
    int rv = 0;
    for( auto const & t : targets() )
    {
      if( !t.fuzz || ( !opt.onlyTarget.empty() && opt.onlyTarget != t.name ) ) continue;
      int const r = fuzzTarget( t, opt, runs );
      if( r == 1 ) return 1;
      if( r ) rv = r;
    }
    return rv;
  }
#endif
  if( mode == "replay" )
  {
    std::ifstream f( file ); std::string line, target; int size = 100; std::vector< std::uint64_t > c;
    while( std::getline( f, line ) )
    {
      if( line.rfind( "target: ", 0 ) == 0 ) target = line.substr( 8 );
      else if( line.rfind( "size: ", 0 ) == 0 ) size = std::atoi( line.c_str() + 6 );
      else if( line.rfind( "batch: ", 0 ) == 0 ) { std::istringstream is( line.substr( 7 ) ); is >> opt.seed >> opt.shard >> opt.nShards >> runs; break; }
      else if( line.rfind( "choices: ", 0 ) == 0 ) { std::istringstream is( line.substr( 9 ) ); std::uint64_t v; while( is >> v ) c.push_back( v ); break; }
    }
    for( auto const & t : targets() )
    {
      if( target != t.name ) continue;
      if( runs > 0 )
      {
        int const st = runBatch( t, opt, opt.scratch + "/replay.log", runs, false );
        bool const ok = WIFEXITED( st ) && WEXITSTATUS( st ) == 0;
        std::printf( "%s: %s %s\n%s\n", ok ? "PASS" : "FAIL", g_shared->msg, ok ? "" : describeStatus( st ).c_str(), ok ? "" : readTail( opt.scratch + "/replay.log", 4000 ).c_str() );
        return ok ? 0 : 1;
      }
      std::string tr;
      ChildResult r = runInChild( t, c, size, opt.scratch + "/replay.log", &tr );
      std::printf( "%s: %s\ntrace: %s\n%s\n", r.ok ? "PASS" : "FAIL", r.msg.c_str(), tr.c_str(), r.ok ? "" : readTail( opt.scratch + "/replay.log", 4000 ).c_str() );
      return r.ok ? 0 : 1;
    }
    std::printf( "unknown target %s\n", target.c_str() );
    return 2;
  }
  return 2;
}
