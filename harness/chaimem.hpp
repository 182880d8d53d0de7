// Two simulated memory spaces for the managed buffer checks, and the reference model of one buffer.
#pragma once
#include "lv.hpp"
#include "RAJA/RAJA.hpp"
#include "math.hpp"
#include "limits.hpp"
#define LVARRAY_USE_CHAI
#define LVARRAY_USE_CUDA
#include "ChaiBuffer.hpp"
#include <memory>

struct HostExec {};
struct DeviceExec {};
namespace RAJA
{
template<> struct verif_forall_hook< HostExec >
{
  static void before() { chai::ArrayManager::getInstance()->setExecutionSpace( chai::CPU ); }
  static void after() { chai::ArrayManager::getInstance()->setExecutionSpace( chai::NONE ); }
  static void enter() { verif_mem::runIn( verif_mem::HOST ); }
  static void leave() { verif_mem::runIn( verif_mem::HOST ); }
};
template<> struct verif_forall_hook< DeviceExec >
{
  static void before() { chai::ArrayManager::getInstance()->setExecutionSpace( chai::GPU ); }
  static void after() { chai::ArrayManager::getInstance()->setExecutionSpace( chai::NONE ); }
  static void enter() { verif_mem::runIn( verif_mem::DEVICE ); }
  static void leave() { verif_mem::runIn( verif_mem::HOST ); }
};
}

namespace mem
{
using LvArray::MemorySpace;
constexpr int H = 0, D = 1;
inline MemorySpace lvSpace( int const s ) { return s == H ? MemorySpace::host : MemorySpace::cuda; }
inline char const * nm( int const s ) { return s == H ? "host" : "device"; }
/// The space p lies in, -1 for none.
inline int spaceOf( void const * p ) { auto * b = verif_mem::find( p ); return b == nullptr ? -1 : int( b->space ); }

/// Run f as the kernel of a space. Whatever is captured by f has to be captured by copy.
template< typename F > void kernel( int const s, F && f )
{
  if( s == H ) RAJA::forall< HostExec >( RAJA::TypedRangeSegment< int >( 0, 1 ), std::forward< F >( f ) );
  else RAJA::forall< DeviceExec >( RAJA::TypedRangeSegment< int >( 0, 1 ), std::forward< F >( f ) );
}
/// Run f in a space without capturing anything.
template< typename F > void in( int const s, F && f )
{
  struct R { R( int x ) { verif_mem::runIn( x == H ? verif_mem::HOST : verif_mem::DEVICE ); } ~R() { verif_mem::runIn( verif_mem::HOST ); } } const r( s );
  f();
}

/// Checks the bookkeeping at the end of a case, and swallows what the buffers print about their moves.
struct Session
{
  std::ostringstream out;
  std::streambuf * old;
  std::size_t live0; long records0;
  Session(): old( std::cout.rdbuf( out.rdbuf() ) )
  {
    chai::ArrayManager::getInstance()->setExecutionSpace( chai::NONE );
    verif_mem::runIn( verif_mem::HOST );
    auto & st = verif_mem::state();
    st.errors.clear(); st.nAlloc = st.nFree = st.nCopies = 0;
    live0 = st.live.size(); records0 = chai::PointerRecord::live();
  }
  ~Session() { std::cout.rdbuf( old ); chai::ArrayManager::getInstance()->setExecutionSpace( chai::NONE ); verif_mem::runIn( verif_mem::HOST ); }
  void errors( char const * where ) { for( auto const & e : verif_mem::state().errors ) CHECK( false, e, " in ", where ); }
  void atEnd()
  {
    errors( "the history" );
    CHECK_EQ( verif_mem::state().live.size(), live0, "allocations left" );
    CHECK_EQ( chai::PointerRecord::live(), records0, "records left" );
  }
  std::string take() { std::string r = out.str(); out.str( "" ); return r; }
};

/// What each space holds of one buffer.
template< typename C > struct Leaf
{
  C copy[ 2 ];
  bool has[ 2 ] = { false, false };
  bool touched[ 2 ] = { false, false };
  int last = -1;
  long moves = 0;
  void fresh( int const s, C c ) { *this = Leaf(); copy[ s ] = std::move( c ); has[ s ] = touched[ s ] = true; last = s; }
  void touch( int const s ) { touched[ s ] = true; last = s; }
  void move( int const s, bool const t )
  {
    if( last < 0 ) return;
    if( s != last )
    {
      has[ s ] = true;
      if( touched[ last ] ) { copy[ s ] = copy[ last ]; touched[ H ] = touched[ D ] = false; ++moves; }
    }
    if( t ) touched[ s ] = true;
    last = s;
  }
  C & cur() { return copy[ last ]; }
};
} // namespace mem
