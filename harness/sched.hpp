// Runs the threads of a case: under VERIF_SCHED one at a time, switching where a generated schedule says, otherwise freely.
#pragma once
#include "pbt.hpp"
#include <atomic>
#include <condition_variable>
#include <exception>
#include <memory>
#include <mutex>
#include <thread>

namespace sched
{
using Program = std::function< void() >;
inline void rethrow( std::vector< std::exception_ptr > const & e ) { for( auto const & x : e ) if( x ) std::rethrow_exception( x ); }

#if defined( VERIF_SCHED )
struct Scheduler
{
  std::mutex m;
  std::vector< std::unique_ptr< std::condition_variable > > cv;
  std::vector< bool > done;
  int current = -1;
  pbt::Src * s = nullptr;
  double stay = 0.6;
  int choices = 0, switches = 0;
};
inline Scheduler * g_sched = nullptr;
inline thread_local int tl_id = -1;

/// Decide who runs next. self is offered first while it can run.
inline int decide( Scheduler & sc, int self )
{
  std::vector< int > ready;
  int const n = static_cast< int >( sc.done.size() );
  for( int k = 0; k < n; ++k ) { int const t = ( ( self < 0 ? 0 : self ) + k ) % n; if( !sc.done[ t ] ) ready.push_back( t ); }
  if( ready.empty() ) return -1;
  if( ready.size() == 1 || ++sc.choices > 20000 ) return ready[ 0 ];
  bool const canStay = self >= 0 && !sc.done[ self ];
  std::size_t const c = sc.s->chooseP( ready.size() - 1, [&]( double u ) -> std::uint64_t
  {
    if( !canStay ) return std::uint64_t( u * ready.size() );
    if( u < sc.stay ) return 0;
    return 1 + std::uint64_t( ( u - sc.stay ) / ( 1 - sc.stay ) * ( ready.size() - 1 ) );
  } );
  return ready[ c ];
}
inline void yield()
{
  if( g_sched == nullptr || tl_id < 0 ) return;
  auto & sc = *g_sched;
  std::unique_lock< std::mutex > l( sc.m );
  int const next = decide( sc, tl_id );
  if( next == tl_id ) return;
  ++sc.switches;
  sc.current = next;
  sc.cv[ next ]->notify_one();
  int const me = tl_id;
  sc.cv[ me ]->wait( l, [&]() { return sc.current == me; } );
}
inline int g_switches = 0;
inline void run( pbt::Src & s, std::vector< Program > const & programs )
{
  Scheduler sc;
  sc.s = &s;
  double const stays[] = { 0.5, 0.0, 0.8, 0.95 };
  sc.stay = stays[ s.range( 0, 3 ) ];
  int const n = static_cast< int >( programs.size() );
  for( int t = 0; t < n; ++t ) { sc.cv.emplace_back( new std::condition_variable ); sc.done.push_back( false ); }
  std::vector< std::exception_ptr > errors( n );
  g_sched = &sc;
  std::vector< std::thread > threads;
  for( int t = 0; t < n; ++t )
  {
    threads.emplace_back( [&, t]()
    {
      { std::unique_lock< std::mutex > l( sc.m ); sc.cv[ t ]->wait( l, [&]() { return sc.current == t; } ); }
      tl_id = t;
      try { programs[ t ](); } catch( ... ) { errors[ t ] = std::current_exception(); }
      tl_id = -1;
      std::unique_lock< std::mutex > l( sc.m );
      sc.done[ t ] = true;
      int next = -1;
      try { next = decide( sc, t ); } catch( ... ) { errors[ t ] = std::current_exception(); for( int k = 0; k < n; ++k ) if( !sc.done[ k ] ) next = k; }
      sc.current = next;
      if( next >= 0 ) sc.cv[ next ]->notify_one();
    } );
  }
  { std::unique_lock< std::mutex > l( sc.m ); sc.current = decide( sc, -1 ); sc.cv[ sc.current ]->notify_one(); }
  for( auto & t : threads ) t.join();
  g_sched = nullptr;
  g_switches = sc.switches;
  rethrow( errors );
}
inline pbt::Src * g_src = nullptr;
#else
inline int g_switches = 1000;
inline void yield() {}
inline void run( pbt::Src &, std::vector< Program > const & programs )
{
  int const n = static_cast< int >( programs.size() );
  std::atomic< int > waiting { n };
  std::vector< std::exception_ptr > errors( n );
  std::vector< std::thread > threads;
  for( int t = 0; t < n; ++t )
  {
    threads.emplace_back( [&, t]()
    {
      --waiting;
      while( waiting.load() > 0 ) {}
      try { programs[ t ](); } catch( ... ) { errors[ t ] = std::current_exception(); }
    } );
  }
  for( auto & t : threads ) t.join();
  rethrow( errors );
}
#endif
} // namespace sched
