// Minimal stand-in for camp's resources.
#pragma once
#include <cstddef>
#include <cstring>
#include <memory>
#include <ostream>
#include "camp/camp.hpp"

namespace camp
{
namespace resources
{
inline namespace v1
{
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
enum class MemoryAccess { Unknown, Device, Pinned, Managed };

class HostEvent
{
public:
  bool check() const { return true; }
  void wait() const {}
};

class Event
{
public:
  Event() = default;
  template< typename T > Event( T && ) {}
  bool check() const { return true; }
  void wait() const {}
  template< typename T > T * try_get() { return nullptr; }
};

class Host
{
public:
  static Host get_default() { return Host(); }
  Platform get_platform() const { return Platform::host; }
  HostEvent get_event() { return HostEvent(); }
  Event get_event_erased() { return Event(); }
  void wait() {}
  void wait_for( Event * ) {}
  template< typename T > T * allocate( std::size_t n ) { return static_cast< T * >( std::malloc( n * sizeof( T ) ) ); }
  void deallocate( void * p ) { std::free( p ); }
  void memcpy( void * dst, void const * src, std::size_t size ) { if( size > 0 ) std::memcpy( dst, src, size ); }
  void memset( void * p, int v, std::size_t size ) { if( size > 0 ) std::memset( p, v, size ); }
};

class Resource
{
public:
  Resource() = default;
  Resource( Host const & ) {}
  template< typename T > T * try_get() { return std::is_same< T, Host >::value ? reinterpret_cast< T * >( &m_host ) : nullptr; }
  template< typename T > T get() { return *try_get< T >(); }
  Platform get_platform() const { return Platform::host; }
  Event get_event() { return Event(); }
  Event get_event_erased() { return Event(); }
  void wait() {}
  void wait_for( Event * ) {}
  void memcpy( void * dst, void const * src, std::size_t size ) { m_host.memcpy( dst, src, size ); }
  void memset( void * p, int v, std::size_t size ) { m_host.memset( p, v, size ); }
private:
  Host m_host;
};
}
}
}
