// Minimal stand-in for CHAI's ArrayManager with the behaviour of CHAI 2.x that LvArray relies on: a record keeps a pointer
// and a touched flag per space; moving allocates in the new space and copies from the last space if that was touched.
#pragma once
#include <functional>
#include "umpire/ResourceManager.hpp"

namespace chai
{
enum ExecutionSpace { NONE = 0, CPU, GPU, NUM_EXECUTION_SPACES };
enum Action { ACTION_ALLOC, ACTION_FREE, ACTION_MOVE, ACTION_CAPTURED, ACTION_FOUND_ABANDONED, ACTION_LEAKED };
struct PointerRecord;
using UserCallback = std::function< void( PointerRecord const *, Action, ExecutionSpace ) >;

struct PointerRecord
{
  std::size_t m_size = 0;
  void * m_pointers[ NUM_EXECUTION_SPACES ] = {};
  bool m_touched[ NUM_EXECUTION_SPACES ] = {};
  ExecutionSpace m_last_space = NONE;
  bool m_owned[ NUM_EXECUTION_SPACES ] = { true, true, true };
  int m_allocators[ NUM_EXECUTION_SPACES ] = {};
  UserCallback m_user_callback = []( PointerRecord const *, Action, ExecutionSpace ) {};
  PointerRecord() { ++live(); }
  PointerRecord( PointerRecord const & ) = delete;
  ~PointerRecord() { --live(); }
  static long & live() { static long n = 0; return n; }
};

class ArrayManager
{
public:
  static ArrayManager * getInstance() { static ArrayManager m; return &m; }
  ExecutionSpace getExecutionSpace() { return m_space; }
  void setExecutionSpace( ExecutionSpace s ) { m_space = s; }
  int getAllocatorId( ExecutionSpace s ) { return s == GPU ? 1 : 0; }
  void enableCallbacks() { m_callbacks = true; }
  void disableCallbacks() { m_callbacks = false; }

  void allocate( PointerRecord * r, ExecutionSpace s = CPU )
  {
    r->m_pointers[ s ] = verif_mem::allocate( r->m_allocators[ s ], r->m_size );
    callback( r, ACTION_ALLOC, s );
  }
  void * move( void * pointer, PointerRecord * r, ExecutionSpace s = NONE )
  {
    if( s == NONE ) s = m_space;
    if( s == NONE ) return pointer;
    callback( r, ACTION_CAPTURED, s );
    if( s != r->m_last_space )
    {
      void * const src = r->m_pointers[ r->m_last_space ];
      if( r->m_pointers[ s ] == nullptr ) allocate( r, s );
      void * const dst = r->m_pointers[ s ];
      if( r->m_touched[ r->m_last_space ] && dst != src )
      {
        if( src == nullptr ) verif_mem::state().errors.push_back( "move from a space that has no allocation" );
        else
        {
          callback( r, ACTION_MOVE, s );
          umpire::ResourceManager::getInstance().copy( dst, src, r->m_size );
        }
        for( bool & t : r->m_touched ) t = false;
      }
    }
    return r->m_pointers[ s ];
  }
  void free( PointerRecord * r, ExecutionSpace spaceToFree = NONE )
  {
    if( r == nullptr ) return;
    for( int s = CPU; s < NUM_EXECUTION_SPACES; ++s )
    {
      if( ( spaceToFree == NONE || spaceToFree == s ) && r->m_pointers[ s ] != nullptr )
      {
        callback( r, ACTION_FREE, ExecutionSpace( s ) );
        verif_mem::deallocate( r->m_pointers[ s ] );
        r->m_pointers[ s ] = nullptr;
      }
    }
    if( spaceToFree == NONE ) delete r;
  }
  PointerRecord * getPointerRecord( void * ) { return nullptr; }

private:
  void callback( PointerRecord const * r, Action a, ExecutionSpace s )
  { if( m_callbacks && r->m_user_callback ) r->m_user_callback( r, a, s ); }
  ExecutionSpace m_space = NONE;
  bool m_callbacks = true;
};
}
