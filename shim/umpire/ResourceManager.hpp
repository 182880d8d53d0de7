// Minimal stand-in for umpire: two memory spaces, HOST and DEVICE, on the host.  Whatever is not in the space where
// code currently runs is poisoned (under AddressSanitizer), so that touching it is reported.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include "camp/resource.hpp"
#if defined( __SANITIZE_ADDRESS__ )
#define VERIF_ASAN 1
#elif defined( __has_feature )
#if __has_feature( address_sanitizer )
#define VERIF_ASAN 1
#endif
#endif
#ifdef VERIF_ASAN
#include <sanitizer/asan_interface.h>
#define VERIF_NOASAN __attribute__( ( no_sanitize( "address" ) ) )
#else
#define VERIF_NOASAN
#endif

namespace verif_mem
{
enum Space { HOST = 0, DEVICE = 1 };
struct Block { char * base; std::size_t size; int allocator; Space space; };
struct State
{
  std::map< char const *, Block > live;
  std::vector< std::pair< std::string, Space > > allocators { { "HOST", HOST }, { "DEVICE", DEVICE } };
  Space running = HOST;
  std::size_t nAlloc = 0, nFree = 0, nCopies = 0;
  std::vector< std::string > errors;
};
inline State & state() { static State s; return s; }
inline void poison( Block const & b, bool const p )
{
#ifdef VERIF_ASAN
  if( p ) __asan_poison_memory_region( b.base, b.size ); else __asan_unpoison_memory_region( b.base, b.size );
#else
  ( void ) b; ( void ) p;
#endif
}
/// Code runs in the given space from now on.
inline void runIn( Space const s )
{
  state().running = s;
  for( auto & kv : state().live ) poison( kv.second, kv.second.space != s );
}
inline Block * find( void const * p )
{
  auto & live = state().live;
  auto it = live.upper_bound( static_cast< char const * >( p ) );
  if( it == live.begin() ) return nullptr;
  --it;
  return static_cast< char const * >( p ) < it->second.base + ( it->second.size ? it->second.size : 1 ) ? &it->second : nullptr;
}
inline void * allocate( int const allocator, std::size_t const size )
{
  Space const s = state().allocators.at( allocator ).second;
  Block b { static_cast< char * >( std::malloc( size ? size : 1 ) ), size, allocator, s };
  std::memset( b.base, 0xcd, size );
  state().live[ b.base ] = b; ++state().nAlloc;
  poison( b, s != state().running );
  return b.base;
}
inline void deallocate( void * p )
{
  auto it = state().live.find( static_cast< char * >( p ) );
  if( it == state().live.end() ) { state().errors.push_back( "free of memory that is not allocated" ); return; }
  poison( it->second, false );
  state().live.erase( it ); ++state().nFree;
  std::free( p );
}
VERIF_NOASAN inline void rawCopy( void * const d, void const * const s, std::size_t const n )
{
  // Not memcpy, whose interceptor looks at the poison.
  volatile char * const dc = static_cast< char * >( d ); char const volatile * const sc = static_cast< char const * >( s );
  for( std::size_t i = 0; i < n; ++i ) dc[ i ] = sc[ i ];
}
VERIF_NOASAN inline void rawSet( void * const d, int const v, std::size_t const n )
{ volatile char * const dc = static_cast< char * >( d ); for( std::size_t i = 0; i < n; ++i ) dc[ i ] = static_cast< char >( v ); }
inline void needRange( void const * p, std::size_t const n, char const * what )
{
  Block * const b = find( p );
  if( b == nullptr ) { if( n > 0 ) state().errors.push_back( std::string( what ) + " outside an allocation" ); return; }
  if( static_cast< char const * >( p ) + n > b->base + b->size ) state().errors.push_back( std::string( what ) + " past the end of an allocation" );
}
}

namespace umpire
{
class Allocator
{
public:
  explicit Allocator( int id = 0 ): m_id( id ) {}
  int getId() const { return m_id; }
  std::string getName() const { return verif_mem::state().allocators.at( m_id ).first; }
  void * allocate( std::size_t n ) { return verif_mem::allocate( m_id, n ); }
  void deallocate( void * p ) { verif_mem::deallocate( p ); }
private:
  int m_id;
};

class ResourceManager
{
public:
  static ResourceManager & getInstance() { static ResourceManager r; return r; }
  Allocator getAllocator( char const * name ) { return getAllocator( std::string( name ) ); }
  Allocator getAllocator( std::string const & name )
  {
    auto & a = verif_mem::state().allocators;
    for( std::size_t i = 0; i < a.size(); ++i ) if( a[ i ].first == name ) return Allocator( int( i ) );
    throw std::runtime_error( "no allocator " + name );
  }
  Allocator getAllocator( int id ) { return Allocator( id ); }
  Allocator getAllocator( void const * p ) { return Allocator( verif_mem::find( p )->allocator ); }
  bool hasAllocator( void const * p ) { return verif_mem::find( p ) != nullptr; }
  Allocator makePool( std::string const & name, verif_mem::Space s )
  { verif_mem::state().allocators.emplace_back( name, s ); return Allocator( int( verif_mem::state().allocators.size() ) - 1 ); }
  void copy( void * dst, void * src, std::size_t size = 0 )
  {
    if( size == 0 ) size = verif_mem::find( src )->size - ( static_cast< char * >( src ) - verif_mem::find( src )->base );
    verif_mem::needRange( src, size, "copy from" ); verif_mem::needRange( dst, size, "copy to" );
    ++verif_mem::state().nCopies;
    verif_mem::rawCopy( dst, src, size );
  }
  camp::resources::Event copy( void * dst, void * src, camp::resources::Resource & r, std::size_t size = 0 )
  { copy( dst, src, size ); return r.get_event(); }
  void memset( void * p, int v, std::size_t size = 0 )
  {
    if( size == 0 ) size = verif_mem::find( p )->size - ( static_cast< char * >( p ) - verif_mem::find( p )->base );
    verif_mem::needRange( p, size, "memset" );
    verif_mem::rawSet( p, v, size );
  }
};
}
