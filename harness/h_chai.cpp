// C31: data moves between memory spaces only as recorded and never goes stale.
#include "chaimem.hpp"
#include "Array.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include "memcpy.hpp"
#include <list>
using namespace pbt;
using namespace lv;
using namespace mem;
using LvArray::ChaiBuffer;

// ------------------------------------------------------------------------------------------------- the buffer itself
struct Pod { int a; short b; bool operator==( Pod const & o ) const { return a == o.a && b == o.b; } };
std::ostream & operator<<( std::ostream & o, Pod const & p ) { return o << p.a << "/" << p.b; }
template< typename T > T mk( int v );
template<> int mk< int >( int v ) { return v; }
template<> double mk< double >( int v ) { return v + 0.5; }
template<> Pod mk< Pod >( int v ) { return Pod { v, short( v * 3 ) }; }

template< typename T > struct Handle { ChaiBuffer< T > b; int at; };

template< typename T > void bufferHistory( Src & s )
{
  Session ses;
  auto & rm = umpire::ResourceManager::getInstance();
  static umpire::Allocator const hostPool = rm.makePool( "HOST_pool", verif_mem::HOST ), devPool = rm.makePool( "DEVICE_pool", verif_mem::DEVICE );
  using TC = T const;
  int const pools = s.range( 0, 3 );
  int want[ 2 ] = { 0, 1 };
  auto make = [&]() -> ChaiBuffer< T >
  {
    if( pools == 0 ) return ChaiBuffer< T >( true );
    if( pools == 1 ) { want[ 0 ] = hostPool.getId(); return ChaiBuffer< T >( { MemorySpace::host }, { hostPool } ); }
    if( pools == 2 ) { want[ 1 ] = devPool.getId(); return ChaiBuffer< T >( { MemorySpace::cuda }, { devPool } ); }
    want[ 0 ] = hostPool.getId(); want[ 1 ] = devPool.getId();
    return ChaiBuffer< T >( { MemorySpace::cuda, MemorySpace::host }, { devPool, hostPool } );
  };
  std::list< Handle< T > > hs;
  std::list< Handle< TC > > cs;
  hs.push_back( Handle< T > { make(), -1 } );
  Leaf< std::vector< T > > m;
  long cap = 0;
  std::string name, type = LvArray::system::demangleType< ChaiBuffer< T > >();
  bool callbacks = true;
  std::size_t copies = 0;
  std::string wantLog;
  auto expectMove = [&]( int const to, bool const t )
  {
    if( cap == 0 ) return;
    long const before = m.moves;
    m.move( to, t );
    if( m.moves != before )
    {
      ++copies;
      if( callbacks )
      {
        std::string size = LvArray::system::calculateSize( cap * sizeof( T ) );
        wantLog += "Moved " + std::string( 9 - size.size(), ' ' ) + size + " to the " + ( to == H ? "HOST  " : "DEVICE" ) + ": " + type + " " + name + "\n";
      }
    }
  };
  auto checkHandle = [&]( auto & h )
  {
    CHECK_EQ( h.b.capacity(), cap, "capacity" );
    if( cap == 0 ) { CHECK( h.b.data() == nullptr, "pointer of an empty buffer" ); return; }
    CHECK_EQ( spaceOf( h.b.data() ), h.at, "space of the pointer of the buffer" );
    if( h.at < 0 ) return;
    CHECK( verif_mem::find( h.b.data() )->base == reinterpret_cast< char const * >( h.b.data() ), "points into the allocation" );
    CHECK( verif_mem::find( h.b.data() )->size >= cap * sizeof( T ), "size of the allocation" );
    CHECK_EQ( verif_mem::find( h.b.data() )->allocator, want[ h.at ], "allocator of the ", nm( h.at ), " allocation" );
    in( h.at, [&]() { for( long i = 0; i < cap; ++i ) CHECK_EQ( h.b[ i ], m.copy[ h.at ][ i ], "value ", i, " on the ", nm( h.at ) ); } );
  };
  auto checkAll = [&]( char const * what )
  {
    ses.errors( what );
    CHECK_EQ( verif_mem::state().nCopies, copies, "copies between the spaces after ", what );
    CHECK_EQ( ses.take(), wantLog, "log of the moves after ", what ); wantLog.clear();
    if( cap > 0 ) CHECK( hs.front().b.getPreviousSpace() == lvSpace( m.last ), "previous space after ", what );
    for( auto & h : hs ) checkHandle( h );
    for( auto & h : cs ) checkHandle( h );
  };
  auto any = [&]( auto & l ) { auto it = l.begin(); std::advance( it, s.choose( l.size() - 1 ) ); return it; };
  int n = 0, next = 1;
  while( s.more( n, 60, 20 ) )
  {
    Span sp( s ); ++n;
    std::size_t const op = cap == 0 ? 0 : s.weighted( { 2, 4, 4, 2, 2, 4, 1.5, 1, 1 } );
    if( op == 0 )
    {
      // Reallocate: on the host keeping some values, or empty in either space.
      bool const empty = cap == 0 || s.boolean( 0.4 );
      auto it = any( hs );
      if( !empty && it->at != H ) { it->b.move( MemorySpace::host, true ); expectMove( H, true ); it->at = H; }
      int const where = empty ? s.range( 0, 1 ) : H;
      long const size = empty ? 0 : s.range< long >( 0, cap );
      long const newCap = s.range< long >( 1, s.boolean( 0.05 ) ? 3000 : 12 );
      LOG( s, "reallocate " << size << " of " << cap << " to " << newCap << " on the " << nm( where ) );
      ChaiBuffer< T > b = std::move( it->b );
      CHECK( it->b.data() == nullptr && it->b.capacity() == 0, "moved from buffer" );
      hs.clear(); cs.clear();
      std::vector< T > keep( newCap );
      for( long i = 0; i < std::min( size, newCap ); ++i ) keep[ i ] = m.copy[ H ][ i ];
      b.reallocate( size, lvSpace( where ), newCap );
      cap = newCap;
      T * const p = b.data();
      for( long i = 0; i < std::min( size, newCap ); ++i ) CHECK_EQ( p[ i ], keep[ i ], "value kept by reallocate" );
      in( where, [&]() { for( long i = std::min( size, newCap ); i < newCap; ++i ) p[ i ] = keep[ i ] = mk< T >( next++ ); } );
      m.fresh( where, keep );
      hs.push_back( Handle< T > { std::move( b ), where } );
    }
    else if( op == 1 )
    {
      int const to = s.range( 0, 1 ); bool const t = s.boolean( 0.7 ), c = !cs.empty() && s.boolean( 0.3 );
      LOG( s, ( c ? "const " : "" ) << "move to the " << nm( to ) << ( t ? " touching" : "" ) );
      if( c ) { auto it = any( cs ); if( s.boolean() ) it->b.move( lvSpace( to ), t ); else it->b.moveNested( lvSpace( to ), cap, t ); it->at = to; }
      else { auto it = any( hs ); if( s.boolean() ) it->b.move( lvSpace( to ), t ); else it->b.moveNested( lvSpace( to ), cap, t ); it->at = to; }
      expectMove( to, t && !c );
    }
    else if( op == 2 )
    {
      // Copied while a kernel captures.
      int const to = s.range( 0, 1 ); bool const c = !cs.empty() && s.boolean( 0.5 ), sized = s.boolean( 0.5 );
      LOG( s, ( c ? "const " : "" ) << "capture on the " << nm( to ) );
      auto * const am = chai::ArrayManager::getInstance();
      am->setExecutionSpace( to == H ? chai::CPU : chai::GPU );
      if( c ) { auto it = any( cs ); cs.push_back( sized ? Handle< TC > { ChaiBuffer< TC >( it->b, cap ), to } : Handle< TC > { ChaiBuffer< TC >( it->b ), to } ); }
      else { auto it = any( hs ); hs.push_back( sized ? Handle< T > { ChaiBuffer< T >( it->b, cap ), to } : Handle< T > { ChaiBuffer< T >( it->b ), to } ); }
      am->setExecutionSpace( chai::NONE );
      expectMove( to, !c );
    }
    else if( op == 3 )
    {
      LOG( s, "copy outside of a kernel" );
      auto it = any( hs );
      std::size_t const k = s.range( 0, 3 );
      if( k == 0 ) hs.push_back( Handle< T > { ChaiBuffer< T >( it->b ), it->at } );
      else if( k == 1 ) { Handle< T > h { ChaiBuffer< T >(), it->at }; h.b = it->b; hs.push_back( std::move( h ) ); }
      else if( k == 2 ) cs.push_back( Handle< TC > { ChaiBuffer< TC >( it->b ), it->at } );
      else { ChaiBuffer< T > x; x = std::move( it->b ); CHECK( it->b.data() == nullptr && it->b.capacity() == 0, "moved from buffer" ); ChaiBuffer< T > y( std::move( x ) ); CHECK( x.data() == nullptr && x.capacity() == 0, "moved from buffer" ); it->b = y; }
    }
    else if( op == 4 )
    {
      bool const c = !cs.empty() && s.boolean( 0.5 );
      LOG( s, "drop a copy" );
      if( c ) cs.erase( any( cs ) );
      else if( hs.size() > 1 ) hs.erase( any( hs ) );
    }
    else if( op == 5 )
    {
      auto it = any( hs );
      long const i = s.range< long >( 0, cap - 1 );
      LOG( s, "write " << i << " on the " << nm( it->at ) );
      T const v = mk< T >( next++ );
      in( it->at, [&]() { it->b[ i ] = v; } );
      m.copy[ it->at ][ i ] = v;
    }
    else if( op == 6 )
    {
      int const where = s.range( 0, 1 );
      if( m.has[ where ] ) { LOG( s, "touch on the " << nm( where ) ); any( hs )->b.registerTouch( lvSpace( where ) ); m.touch( where ); }
    }
    else if( op == 7 )
    {
      name = s.boolean( 0.2 ) ? std::string() : "name" + std::to_string( n );
      LOG( s, "set the name to " << name );
      if( s.boolean( 0.3 ) ) { any( hs )->b.template setName< std::vector< long > >( name ); type = LvArray::system::demangleType< std::vector< long > >(); }
      else { any( hs )->b.setName( name ); type = LvArray::system::demangleType< ChaiBuffer< T > >(); }
    }
    else
    {
      callbacks = !callbacks;
      LOG( s, ( callbacks ? "enable" : "disable" ) << " callbacks" );
      if( callbacks ) chai::ArrayManager::getInstance()->enableCallbacks(); else chai::ArrayManager::getInstance()->disableCallbacks();
    }
    checkAll( "an operation" );
  }
  chai::ArrayManager::getInstance()->enableCallbacks();
  if( m.moves >= 2 && n >= 5 ) s.nontrivial();
  ChaiBuffer< T > b = hs.back().b;
  if( s.boolean() ) b.free(); else LvArray::bufferManipulation::free( b, cap );
  CHECK( b.data() == nullptr && b.capacity() == 0, "after free" );
  // Uninitialized and empty buffers ignore moves.
  ChaiBuffer< T > u; u.move( MemorySpace::cuda, true ); u.moveNested( MemorySpace::host, 0, true );
  ChaiBuffer< T > e( true ); e.move( MemorySpace::cuda, true ); CHECK( e.data() == nullptr, "moved empty buffer" ); e.free();
  ses.atEnd();
}
Registrar r1( "chai_buffer", []( Src & s )
{
  std::size_t const t = s.range( 0, 2 );
  if( t == 0 ) bufferHistory< int >( s ); else if( t == 1 ) bufferHistory< double >( s ); else bufferHistory< Pod >( s );
}, 3000, "at least five operations and two copies between the spaces", true );

// ------------------------------------------------------------------------------------------------- arrays
template< typename T > using A1 = LvArray::Array< T, 1, camp::idx_seq< 0 >, std::ptrdiff_t, ChaiBuffer >;
template< typename T > using A2 = LvArray::Array< T, 2, camp::idx_seq< 1, 0 >, int, ChaiBuffer >;
template< typename T > using V1 = LvArray::ArrayView< T, 1, 0, std::ptrdiff_t, ChaiBuffer >;

/// Compare with, and maybe change, the values a view gives in a space.
template< typename VIEW > void checkValues( VIEW const & v, std::vector< int > const & want, int const where, char const * what )
{
  CHECK_EQ( long( v.size() ), long( want.size() ), "size in ", what );
  if( want.empty() ) return;
  CHECK_EQ( spaceOf( v.data() ), where, "space of the pointer in ", what );
  for( std::size_t i = 0; i < want.size(); ++i ) CHECK_EQ( v.data()[ i ], want[ i ], "value ", i, " on the ", nm( where ), " in ", what );
}

template< typename ARR > struct ArrState
{
  ARR a; Leaf< std::vector< int > > m; int at = -1;   // at: the space a itself points to
  long size() const { return a.size(); }
};
template< typename T > void growTo( A1< T > & a, long n ) { a.resize( n ); }
template< typename T > void growTo( A2< T > & a, long n ) { a.resize( 3, n / 3 ); }

template< typename ARR > void arrayHistory( Src & s )
{
  constexpr bool ONE = ARR::NDIM == 1;
  using I = typename ARR::IndexType;
  Session ses;
  {
    ArrState< ARR > st[ 2 ];
    int n = 0, next = 1, kernels = 0;
    auto toHost = [&]( ArrState< ARR > & x ) { x.a.move( MemorySpace::host ); x.m.move( H, true ); if( x.m.last >= 0 ) x.at = H; };
    // After an operation on the host: what the model holds now.
    auto hostChanged = [&]( ArrState< ARR > & x, std::vector< int > now, bool const realloc )
    {
      if( realloc || x.m.last < 0 ) { if( x.a.capacity() > 0 ) { x.m.fresh( H, now ); x.at = H; } }
      else { x.m.copy[ H ] = now; x.m.copy[ D ].resize( now.size() ); }
    };
    while( s.more( n, 60, 20 ) )
    {
      Span sp( s ); ++n;
      int const k = s.range( 0, 1 );
      ArrState< ARR > & x = st[ k ]; ArrState< ARR > & y = st[ 1 - k ];
      std::size_t const op = s.weighted( { 4, 3, 5, 3, 2, 2, 2, 1, 1, 1, 1, 1 } );
      int const where = s.range( 0, 1 );
      if( op == 0 )
      {
        // An operation on the host that changes the size or the values.
        int const kind = s.range( 0, ONE ? 6 : 1 );
        // Resizing touches the host by itself.
        bool const soft = ( kind == 0 || kind == 5 ) && s.boolean( 0.4 );
        if( soft ) { x.a.move( MemorySpace::host, false ); x.m.move( H, false ); if( x.m.last >= 0 ) x.at = H; }
        else toHost( x );
        std::vector< int > now = x.m.last < 0 ? std::vector< int >() : x.m.copy[ H ];
        now.resize( x.a.size() );
        long const cap = x.a.capacity();
        long const len = s.range< long >( 0, 9 ) / ( ONE ? 1 : 3 ) * ( ONE ? 1 : 3 );
        LOG( s, "array " << k << " host operation " << kind << " length " << len << " of " << now.size() );
        if( kind == 0 )
        {
          long const old = now.size();
          growTo( x.a, len );
          // Values that remain are kept at their position; the others are set.
          if constexpr( ONE ) { now.resize( len ); for( long i = std::min( old, len ); i < len; ++i ) CHECK_EQ( x.a.data()[ i ], 0, "new value" ); }
          else { now.resize( len ); for( long i = 0; i < len; ++i ) x.a.data()[ i ] = now[ i ] = next++; }
        }
        else if( kind == 1 ) { x.a.reserve( I( len ) ); }
        else if constexpr( ONE )
        {
          if( kind == 2 ) { x.a.emplace_back( next ); now.push_back( next++ ); }
          else if( kind == 3 ) { long const p = s.range< long >( 0, now.size() ); x.a.emplace( p, next ); now.insert( now.begin() + p, next++ ); }
          else if( kind == 4 ) { if( !now.empty() ) { long const p = s.range< long >( 0, now.size() - 1 ); x.a.erase( p ); now.erase( now.begin() + p ); } }
          else if( kind == 5 ) { x.a.resizeDefault( len, next ); long const old = now.size(); now.resize( len, next++ ); ( void ) old; }
          else { std::vector< int > v; for( long i = 0; i < len; ++i ) v.push_back( next++ ); long const p = s.range< long >( 0, now.size() ); x.a.insert( p, v.begin(), v.end() ); now.insert( now.begin() + p, v.begin(), v.end() ); }
        }
        hostChanged( x, now, x.a.capacity() != cap );
        if( soft && !now.empty() ) x.m.touch( H );
      }
      else if( op == 1 )
      {
        bool const t = s.boolean( 0.6 );
        std::size_t const via = s.range( 0, 2 );
        LOG( s, "array " << k << " move to the " << nm( where ) << ( t ? " touching" : "" ) << " via " << via );
        if( via == 0 ) { if( t ) x.a.move( lvSpace( where ) ); else x.a.move( lvSpace( where ), false ); x.m.move( where, t ); if( x.m.last >= 0 ) x.at = where; if( x.m.last >= 0 ) in( where, [&]() { checkValues( x.a, x.m.copy[ where ], where, "move" ); } ); }
        else if( via == 1 ) { auto v = x.a.toView(); v.move( lvSpace( where ), t ); x.m.move( where, t ); if( x.m.last >= 0 ) in( where, [&]() { checkValues( v, x.m.copy[ where ], where, "move of a view" ); } ); }
        else { auto v = x.a.toViewConst(); v.move( lvSpace( where ), t ); x.m.move( where, false ); if( x.m.last >= 0 ) in( where, [&]() { checkValues( v, x.m.copy[ where ], where, "move of a const view" ); } ); }
      }
      else if( op == 2 )
      {
        bool const write = s.boolean( 0.7 );
        LOG( s, "array " << k << " kernel on the " << nm( where ) << ( write ? " writing" : "" ) );
        x.m.move( where, true );
        std::vector< int > const want = x.m.last < 0 ? std::vector< int >() : x.m.copy[ where ];
        int const first = next;
        kernel( where, [ v = x.a.toView(), &want, where, write, first ]( int )
        {
          checkValues( v, want, where, "a kernel" );
          if( write ) for( long i = 0; i < long( v.size() ); ++i ) v.data()[ i ] = first + int( i );
        } );
        if( write && x.m.last >= 0 ) for( int & q : x.m.copy[ where ] ) q = next++;
        ++kernels;
      }
      else if( op == 3 )
      {
        // Nothing written through a const view is ever moved.
        bool const scribble = s.boolean( 0.4 );
        LOG( s, "array " << k << " const kernel on the " << nm( where ) << ( scribble ? " scribbling" : "" ) );
        x.m.move( where, false );
        std::vector< int > const want = x.m.last < 0 ? std::vector< int >() : x.m.copy[ where ];
        int const first = next;
        kernel( where, [ v = x.a.toViewConst(), &want, where, scribble, first ]( int )
        {
          checkValues( v, want, where, "a const kernel" );
          if( scribble ) for( long i = 0; i < long( v.size() ); ++i ) const_cast< int & >( v.data()[ i ] ) = first + int( i );
        } );
        if( scribble && x.m.last >= 0 ) for( int & q : x.m.copy[ where ] ) q = next++;
        ++kernels;
      }
      else if( op == 4 )
      {
        LOG( s, "array " << k << " setValues on the " << nm( where ) << " to " << next );
        if( where == H ) x.a.template setValues< HostExec >( next ); else x.a.template setValues< DeviceExec >( next );
        x.m.move( where, true );
        if( x.m.last >= 0 ) for( int & q : x.m.copy[ where ] ) q = next;
        ++next;
      }
      else if( op == 5 )
      {
        LOG( s, "array " << k << " zero in the last space" );
        x.a.zero();
        if( x.a.size() > 0 ) { int const l = x.m.last; x.m.move( l, true ); x.at = l; for( int & q : x.m.copy[ l ] ) q = 0; }
      }
      else if( op == 6 )
      {
        // From one array to the other in whatever space each of them is.
        bool same = x.a.size() == y.a.size() && x.a.size() > 0;
        for( int d = 0; d < ARR::NDIM; ++d ) same = same && x.a.size( d ) == y.a.size( d ) && x.a.strides()[ d ] == y.a.strides()[ d ];
        if( !same ) continue;
        bool const event = s.boolean();
        LOG( s, "copy " << 1 - k << " on the " << nm( y.m.last ) << " to " << k << " on the " << nm( x.m.last ) );
        auto const dv = x.a.toView(); auto const sv = y.a.toViewConst();
        camp::resources::Resource r { camp::resources::Host {} };
        if( event ) LvArray::memcpy< 0, 0 >( r, dv, {}, sv, {} ); else LvArray::memcpy< 0, 0 >( dv, {}, sv, {} );
        x.m.move( x.m.last, true ); y.m.move( y.m.last, false );
        x.m.cur() = y.m.cur();
        s.label( "memcpy" );
      }
      else if( op == 7 )
      {
        bool same = x.a.size() == y.a.size() && x.a.size() > 0;
        for( int d = 0; d < ARR::NDIM; ++d ) same = same && x.a.size( d ) == y.a.size( d ) && x.a.strides()[ d ] == y.a.strides()[ d ];
        if( !same ) continue;
        LOG( s, "array " << k << " setValues from the other on the " << nm( where ) );
        if( where == H ) x.a.template setValues< HostExec >( y.a.toViewConst() ); else x.a.template setValues< DeviceExec >( y.a.toViewConst() );
        x.m.move( where, true ); y.m.move( where, false );
        x.m.copy[ where ] = y.m.copy[ where ];
      }
      else if( op == 8 )
      {
        toHost( y );
        toHost( x );
        LOG( s, "array " << k << " = the other" );
        long const cap = x.a.capacity();
        x.a = y.a;
        std::vector< int > now = y.m.last < 0 ? std::vector< int >() : y.m.copy[ H ];
        if( x.a.capacity() == 0 ) { x.m = Leaf< std::vector< int > >(); x.at = -1; }
        else hostChanged( x, now, x.a.capacity() != cap || x.m.last < 0 );
      }
      else if( op == 9 )
      {
        LOG( s, "swap" );
        ARR t( std::move( x.a ) ); x.a = std::move( y.a ); y.a = std::move( t );
        std::swap( x.m, y.m ); std::swap( x.at, y.at );
      }
      else if( op == 10 )
      {
        // Sized without values in one of the spaces, then written there.
        long const len = s.range< long >( 1, 4 ) * 3;
        LOG( s, "array " << k << " made anew on the " << nm( where ) << " with length " << len );
        x.a = ARR();
        if constexpr( ONE ) x.a.resizeWithoutInitializationOrDestruction( lvSpace( where ), len );
        else x.a.resizeWithoutInitializationOrDestruction( lvSpace( where ), 3, len / 3 );
        CHECK_EQ( spaceOf( x.a.data() ), where, "space of the allocation" );
        CHECK( x.a.getPreviousSpace() == lvSpace( where ), "previous space" );
        std::vector< int > now;
        in( where, [&]() { for( long i = 0; i < len; ++i ) { x.a.data()[ i ] = next; now.push_back( next++ ); } } );
        x.m.fresh( where, now ); x.at = where;
      }
      else if( x.m.last >= 0 && x.at >= 0 )
      {
        LOG( s, "array " << k << " written and touched on the " << nm( x.at ) );
        in( x.at, [&]() { for( long i = 0; i < long( x.a.size() ); ++i ) x.a.data()[ i ] = x.m.copy[ x.at ][ i ] = next++; } );
        x.a.registerTouch( lvSpace( x.at ) ); x.m.touch( x.at );
      }
      ses.errors( "an operation" );
      for( auto & z : st )
      {
        if( z.m.last >= 0 && z.a.capacity() > 0 ) CHECK( z.a.getPreviousSpace() == lvSpace( z.m.last ), "previous space" );
        if( z.at >= 0 && z.a.size() > 0 ) in( z.at, [&]() { checkValues( z.a, z.m.copy[ z.at ], z.at, "the array" ); } );
      }
    }
    long const moves = st[ 0 ].m.moves + st[ 1 ].m.moves;
    if( kernels >= 2 && moves >= 2 ) s.nontrivial();
  }
  ses.atEnd();
}
Registrar r2( "chai_array", []( Src & s ) { if( s.boolean() ) arrayHistory< A2< int > >( s ); else arrayHistory< A1< int > >( s ); },
              3000, "at least two kernels and two copies between the spaces", true );

// ------------------------------------------------------------------------------------------------- nested arrays
using N2 = A1< A1< int > >;
using N3 = A1< A1< A1< int > > >;
using L = Leaf< std::vector< int > >;

/// The arrays of values in an array of arrays, in order.
template< typename F > void forLeaves( A1< int > & a, F && f ) { f( a ); }
template< typename T, typename F > void forLeaves( A1< A1< T > > & a, F && f ) { for( long i = 0; i < a.size(); ++i ) forLeaves( a[ i ], f ); }
template< typename F > void forViews( V1< int > const & v, F && f ) { f( v ); }
template< typename F > void forViews( V1< int const > const & v, F && f ) { f( v ); }
template< typename V, typename F > void forViews( V1< V const > const & v, int const where, F && f );
template< typename F > void forViewLeaves( V1< int > const & v, int, F && f ) { f( v ); }
template< typename F > void forViewLeaves( V1< int const > const & v, int, F && f ) { f( v ); }
template< typename V, typename F > void forViewLeaves( V1< V const > const & v, int const where, F && f )
{
  if( v.size() > 0 ) CHECK_EQ( spaceOf( v.data() ), where, "space of an array of arrays" );
  for( long i = 0; i < v.size(); ++i ) forViewLeaves( v[ i ], where, f );
}

template< typename ARR > void nestedHistory( Src & s )
{
  constexpr bool THREE = std::is_same< ARR, N3 >::value;
  Session ses;
  {
    ARR a;
    std::vector< L > leaves;           // those of a, in order
    int outer = -1;                    // last space of a, -1 without an allocation
    int n = 0, next = 1, kernels = 0, crossed = 0;
    auto moveAll = [&]( int const to, bool const t )
    {
      if( a.capacity() == 0 ) return;
      if( outer != to ) ++crossed;
      outer = to;
      for( auto & l : leaves ) l.move( to, t );
    };
    auto toHost = [&]() { a.move( MemorySpace::host ); moveAll( H, true ); };
    /// An array of values filled with new ones.
    auto fill = [&]( A1< int > & x, long len, L & l )
    {
      l = L();
      x.resize( len );
      std::vector< int > v;
      for( long i = 0; i < len; ++i ) { x[ i ] = next; v.push_back( next++ ); }
      if( x.capacity() > 0 ) l.fresh( H, v );
    };
    auto bound = [&]( long i )  // index of the first leaf of a[ i ]
    { long k = 0; if constexpr( THREE ) { for( long j = 0; j < i; ++j ) k += a[ j ].size(); } else k = i; return k; };
    auto makeEntry = [&]( auto & e, std::vector< L > & ls )
    {
      if constexpr( THREE ) { long const m = s.range< long >( 0, 3 ); e.resize( m ); for( long j = 0; j < m; ++j ) { L l; fill( e[ j ], s.range< long >( 0, 4 ), l ); ls.push_back( l ); } }
      else { L l; fill( e, s.range< long >( 0, 5 ), l ); ls.push_back( l ); }
    };
    while( s.more( n, 60, 20 ) )
    {
      Span sp( s ); ++n;
      std::size_t const op = s.weighted( { 3, 3, 4, 3, 2, 2, 1, 1 } );
      int const where = s.range( 0, 1 );
      if( op == 0 )
      {
        // The outer array changes on the host.
        toHost();
        int const kind = s.range( 0, 3 );
        long const size = a.size();
        LOG( s, "outer operation " << kind << " of " << size );
        if( kind == 0 )
        {
          typename std::remove_reference_t< decltype( a[ 0 ] ) > e; std::vector< L > ls;
          makeEntry( e, ls );
          long const p = s.range< long >( 0, size ), at = bound( p );
          a.emplace( p, std::move( e ) );
          leaves.insert( leaves.begin() + at, ls.begin(), ls.end() );
        }
        else if( kind == 1 && size > 0 )
        {
          long const p = s.range< long >( 0, size - 1 ), at = bound( p ), e = bound( p + 1 );
          a.erase( p );
          leaves.erase( leaves.begin() + at, leaves.begin() + e );
        }
        else if( kind == 2 )
        {
          long const len = s.range< long >( 0, 4 ), at = len < size ? bound( len ) : long( leaves.size() );
          leaves.erase( leaves.begin() + at, leaves.end() );
          a.resize( len );
          if constexpr( !THREE ) leaves.resize( len );
        }
        else { a.reserve( s.range< long >( 0, 8 ) ); }
        outer = a.capacity() == 0 ? -1 : H;
      }
      else if( op == 1 && !leaves.empty() )
      {
        // One array of values changes on the host.
        toHost();
        long const k = s.range< long >( 0, leaves.size() - 1 );
        int const kind = s.range( 0, 2 );
        LOG( s, "array " << k << " operation " << kind );
        long i = 0;
        forLeaves( a, [&]( A1< int > & x )
        {
          if( i++ != k ) return;
          L & l = leaves[ k ];
          long const cap = x.capacity();
          std::vector< int > now = l.last < 0 ? std::vector< int >() : l.copy[ H ];
          now.resize( x.size() );
          if( kind == 0 ) { x.emplace_back( next ); now.push_back( next++ ); }
          else if( kind == 1 ) { long const len = s.range< long >( 0, 6 ); x.resizeDefault( len, next ); now.resize( len, next++ ); }
          else for( long j = 0; j < x.size(); ++j ) x[ j ] = now[ j ] = next++;
          if( x.capacity() != cap || l.last < 0 ) { if( x.capacity() > 0 ) l.fresh( H, now ); }
          else { l.copy[ H ] = now; l.copy[ D ].resize( now.size() ); }
        } );
      }
      else if( op == 2 || op == 3 )
      {
        bool const write = op == 2 && s.boolean( 0.7 ), scribble = op == 3 && s.boolean( 0.4 );
        LOG( s, ( op == 3 ? "const " : "" ) << "kernel on the " << nm( where ) << ( write ? " writing" : scribble ? " scribbling" : "" ) );
        moveAll( where, op == 2 );
        auto const * const pl = &leaves;
        int const first = next;
        auto body = [ pl, where, write, scribble, first ]( auto const & v )
        {
          long k = 0; int f = first;
          forViewLeaves( v, where, [&]( auto const & x )
          {
            L const & l = ( *pl )[ k++ ];
            std::vector< int > const want = l.last < 0 ? std::vector< int >() : l.copy[ where ];
            CHECK_EQ( long( x.size() ), long( want.size() ), "size of array ", k - 1 );
            checkValues( x, want, where, "a kernel over nested arrays" );
            if( write || scribble ) for( long i = 0; i < x.size(); ++i ) const_cast< int & >( x[ i ] ) = f++;
          } );
          CHECK_EQ( k, long( pl->size() ), "number of arrays" );
        };
        if( op == 2 ) kernel( where, [ v = a.toNestedView(), body ]( int ) { body( v ); } );
        else kernel( where, [ v = a.toNestedViewConst(), body ]( int ) { body( v ); } );
        if( write || scribble ) for( L & l : leaves ) if( l.last >= 0 ) for( int & q : l.copy[ where ] ) q = next++;
        ++kernels;
      }
      else if( op == 4 )
      {
        bool const t = s.boolean( 0.6 );
        LOG( s, "move to the " << nm( where ) << ( t ? " touching" : "" ) );
        a.move( lvSpace( where ), t ); moveAll( where, t );
        if( outer == H )
        {
          std::size_t k = 0;
          forLeaves( a, [&]( A1< int > & x )
          {
            L const & l = leaves[ k++ ];
            std::vector< int > want = l.last < 0 ? std::vector< int >() : l.copy[ H ];
            checkValues( x, want, H, "the values after a move" );
          } );
        }
      }
      else if( op == 5 )
      {
        bool const t = s.boolean( 0.6 ), c = s.boolean();
        LOG( s, "move a " << ( c ? "const " : "" ) << "view to the " << nm( where ) << ( t ? " touching" : "" ) );
        if( c ) { auto v = a.toNestedViewConst(); v.move( lvSpace( where ), t ); } else { auto v = a.toNestedView(); v.move( lvSpace( where ), t ); }
        moveAll( where, t && !c );
      }
      else if( op == 6 && !leaves.empty() )
      {
        // One array of values moves on its own while the outer array is on the host.
        toHost();
        long const k = s.range< long >( 0, leaves.size() - 1 );
        bool const t = s.boolean();
        LOG( s, "array " << k << " moves to the " << nm( where ) << ( t ? " touching" : "" ) );
        long i = 0;
        forLeaves( a, [&]( A1< int > & x ) { if( i++ == k ) x.move( lvSpace( where ), t ); } );
        leaves[ k ].move( where, t );
        s.label( "one moved alone" );
      }
      else if( op == 7 )
      {
        toHost();
        LOG( s, "copy and replace" );
        ARR b( a );
        a = std::move( b );
        for( L & l : leaves ) if( l.last >= 0 ) { std::vector< int > v = l.copy[ H ]; if( v.empty() ) l = L(); else l.fresh( H, v ); }
        outer = a.capacity() == 0 ? -1 : H;
      }
      ses.errors( "an operation" );
    }
    if( kernels >= 2 && crossed >= 2 && leaves.size() >= 2 ) s.nontrivial();
  }
  ses.atEnd();
}
Registrar r3( "chai_nested", []( Src & s ) { if( s.boolean( 0.4 ) ) nestedHistory< N3 >( s ); else nestedHistory< N2 >( s ); },
              3000, "at least two kernels over at least two arrays and two moves between the spaces", true );

// ------------------------------------------------------------------------------------------------- the other containers
using AoA = LvArray::ArrayOfArrays< int, std::ptrdiff_t, ChaiBuffer >;
using AoS = LvArray::ArrayOfSets< int, std::ptrdiff_t, ChaiBuffer >;
using Pattern = LvArray::SparsityPattern< int, std::ptrdiff_t, ChaiBuffer >;
using Matrix = LvArray::CRSMatrix< int, int, std::ptrdiff_t, ChaiBuffer >;
using Sorted = LvArray::SortedArray< int, std::ptrdiff_t, ChaiBuffer >;
using Rows = std::vector< std::vector< int > >;
constexpr int NCOLS = 12;

template< typename C > constexpr bool isArrays = std::is_same< C, AoA >::value;
template< typename C > constexpr bool isMatrix = std::is_same< C, Matrix >::value;
template< typename C > constexpr bool hasColumns = std::is_same< C, Pattern >::value || std::is_same< C, Matrix >::value;

template< typename C > void raggedHistory( Src & s )
{
  Session ses;
  {
    C a = [&]() { if constexpr( hasColumns< C > ) return C( s.range( 0, 4 ), NCOLS, s.range( 0, 3 ) ); else return C(); }();
    auto nRows = [&]() -> long { if constexpr( hasColumns< C > ) return a.numRows(); else return a.size(); };
    auto rowCap = [&]( auto const & v, long i ) -> long { if constexpr( isArrays< C > ) return v.capacityOfArray( i ); else if constexpr( hasColumns< C > ) return v.nonZeroCapacity( i ); else return v.capacityOfSet( i ); };
    // The values, entries and sizes move on their own.
    Leaf< Rows > vals, ents;
    Leaf< std::vector< int > > sizes;
    Rows rows( nRows() ), entries( nRows() );   // on the host, when that is being changed
    auto fresh = [&]()
    {
      std::vector< int > n; for( auto & r : rows ) n.push_back( int( r.size() ) );
      vals.fresh( H, rows ); ents.fresh( H, entries ); sizes.fresh( H, n );
    };
    fresh();
    auto trim = [&]( int const w )
    {
      rows = vals.copy[ w ]; entries = ents.copy[ w ];
      for( std::size_t i = 0; i < rows.size(); ++i ) { rows[ i ].resize( sizes.copy[ w ][ i ] ); entries[ i ].resize( sizes.copy[ w ][ i ] ); }
    };
    auto toHost = [&]() { a.move( MemorySpace::host ); vals.move( H, true ); ents.move( H, true ); sizes.move( H, true ); trim( H ); };
    auto compare = [&]( auto const & v, int const w, char const * what )
    {
      for( std::size_t i = 0; i < sizes.copy[ w ].size(); ++i )
      {
        long const n = sizes.copy[ w ][ i ];
        auto const row = [&]() { if constexpr( hasColumns< C > ) return v.getColumns( i ); else return v[ i ]; }();
        CHECK_EQ( long( row.size() ), n, "size of row ", i, " on the ", nm( w ), " in ", what );
        for( long j = 0; j < n; ++j ) CHECK_EQ( row[ j ], vals.copy[ w ][ i ][ j ], "value ", i, ", ", j, " on the ", nm( w ), " in ", what );
        if( n > 0 ) CHECK_EQ( spaceOf( row.dataIfContiguous() ), w, "space of the values in ", what );
      }
    };
    auto compareEntries = [&]( auto const & v, int const w, char const * what )
    {
      for( std::size_t i = 0; i < sizes.copy[ w ].size(); ++i )
      {
        auto const e = v.getEntries( i );
        for( long j = 0; j < sizes.copy[ w ][ i ]; ++j ) CHECK_EQ( e[ j ], ents.copy[ w ][ i ][ j ], "entry ", i, ", ", j, " on the ", nm( w ), " in ", what );
      }
    };
    int n = 0, next = 1, kernels = 0, crossed = 0;
    while( s.more( n, 50, 18 ) )
    {
      Span sp( s ); ++n;
      std::size_t const op = s.weighted( { 4, 5, 3, 3, 2, 2, 1 } );
      int const where = s.range( 0, 1 );
      if( sizes.last != where ) ++crossed;
      if( op == 0 )
      {
        toHost();
        int const kind = s.range( 0, 5 );
        long const m = nRows(), i = m > 0 ? s.range< long >( 0, m - 1 ) : 0;
        LOG( s, "host operation " << kind << " row " << i << " of " << m );
        if( kind == 0 )
        {
          if constexpr( isArrays< C > ) { std::vector< int > v; long const len = s.range< long >( 0, 4 ); for( long j = 0; j < len; ++j ) v.push_back( next++ ); long const p = s.range< long >( 0, m ); a.insertArray( p, v.begin(), v.end() ); rows.insert( rows.begin() + p, v ); entries.insert( entries.begin() + p, v ); }
          else if constexpr( hasColumns< C > ) { long const len = s.range< long >( 0, 5 ); a.resize( len, NCOLS, s.range( 0, 3 ) ); rows.resize( len ); entries.resize( len ); }
          else { a.appendSet( s.range( 0, 4 ) ); rows.emplace_back(); entries.emplace_back(); }
        }
        else if( m == 0 ) continue;
        else if( kind <= 2 )
        {
          if constexpr( isArrays< C > ) { a.emplaceBack( i, next ); rows[ i ].push_back( next++ ); entries[ i ].push_back( 0 ); }
          else
          {
            int const c = s.range( 0, NCOLS - 1 );
            auto it = std::lower_bound( rows[ i ].begin(), rows[ i ].end(), c );
            bool const in = it != rows[ i ].end() && *it == c; bool got;
            if constexpr( isMatrix< C > ) got = a.insertNonZero( i, c, next );
            else if constexpr( hasColumns< C > ) got = a.insertNonZero( i, c );
            else got = a.insertIntoSet( i, c );
            CHECK_EQ( got, !in, "inserted" );
            if( !in ) { entries[ i ].insert( entries[ i ].begin() + ( it - rows[ i ].begin() ), next ); rows[ i ].insert( it, c ); }
            ++next;
          }
        }
        else if( kind == 3 )
        {
          long const c = s.range< long >( 0, 6 );
          if constexpr( isArrays< C > ) { a.setCapacityOfArray( i, c ); if( long( rows[ i ].size() ) > c ) { rows[ i ].resize( c ); entries[ i ].resize( c ); } }
          else if constexpr( hasColumns< C > ) a.reserveNonZeros( i, c );
          else a.reserveCapacityOfSet( i, c );
        }
        else if( kind == 4 ) { a.compress(); }
        else
        {
          if constexpr( isArrays< C > ) { a.eraseArray( i ); rows.erase( rows.begin() + i ); entries.erase( entries.begin() + i ); }
          else if constexpr( !hasColumns< C > ) { a.eraseSet( i ); rows.erase( rows.begin() + i ); entries.erase( entries.begin() + i ); }
          else { C b( a ); a = b; }
        }
        fresh();
        if constexpr( !isMatrix< C > ) ents.last = H;
      }
      else if( op == 1 )
      {
        // A kernel that may change the values and the sizes within the capacities.
        vals.move( where, true ); sizes.move( where, true ); ents.move( where, true );
        long const m = long( sizes.cur().size() ), i = m > 0 ? s.range< long >( 0, m - 1 ) : 0;
        int const kind = s.range( 0, 3 ), c = s.range( 0, NCOLS - 1 ), v = next++;
        LOG( s, "kernel on the " << nm( where ) << " operation " << kind << " row " << i << " value " << c );
        std::vector< int > & row = m > 0 ? vals.copy[ where ][ i ] : rows.emplace_back();
        int done = 0; int * const pDone = &done;
        long const sz = m > 0 ? sizes.copy[ where ][ i ] : 0;
        auto pc = &compare; auto pe = &compareEntries; auto pr = &rowCap;
        kernel( where, [ x = a.toView(), pc, pe, pr, where, m, i, kind, c, v, pDone, sz ]( int )
        {
          ( *pc )( x, where, "a kernel" );
          if constexpr( isMatrix< C > ) ( *pe )( x, where, "a kernel" ); else ( void ) pe;
          if( m == 0 ) return;
          if( kind == 0 )
          {
            if constexpr( isArrays< C > ) { if( sz < ( *pr )( x, i ) ) { x.emplaceBack( i, v ); *pDone = 1; } }
            else if( sz < ( *pr )( x, i ) )
            {
              if constexpr( isMatrix< C > ) *pDone = x.insertNonZero( i, c, v );
              else if constexpr( hasColumns< C > ) *pDone = x.insertNonZero( i, c );
              else *pDone = x.insertIntoSet( i, c );
            }
          }
          else if( kind == 1 )
          {
            if constexpr( isArrays< C > ) { if( sz > 0 ) { x.eraseFromArray( i, sz / 2 ); *pDone = 1; } }
            else if constexpr( hasColumns< C > ) *pDone = x.removeNonZero( i, c );
            else *pDone = x.removeFromSet( i, c );
          }
          else if( kind == 2 )
          {
            if constexpr( isArrays< C > ) { for( long j = 0; j < sz; ++j ) x( i, j ) = v; }
            else if constexpr( isMatrix< C > ) { auto e = x.getEntries( i ); for( long j = 0; j < sz; ++j ) e[ j ] = v; }
          }
        } );
        ++kernels;
        if( m > 0 )
        {
          std::vector< int > & ent = ents.copy[ where ][ i ];
          int & size = sizes.copy[ where ][ i ];
          row.resize( size ); ent.resize( size );
          if( kind == 2 )
          {
            if constexpr( isArrays< C > ) std::fill( row.begin(), row.end(), v );
            if constexpr( isMatrix< C > ) std::fill( ent.begin(), ent.end(), v );
          }
          else if( kind == 0 )
          {
            if constexpr( isArrays< C > ) { if( done ) { row.push_back( v ); ent.push_back( 0 ); ++size; } }
            else
            {
              auto it = std::lower_bound( row.begin(), row.end(), c ); bool const in = it != row.end() && *it == c;
              if( done ) { CHECK( !in, "inserted a value that is there" ); ent.insert( ent.begin() + ( it - row.begin() ), v ); row.insert( it, c ); ++size; }
            }
          }
          else if( kind == 1 )
          {
            if constexpr( isArrays< C > ) { if( done ) { row.erase( row.begin() + size / 2 ); ent.pop_back(); --size; } }
            else
            {
              auto it = std::lower_bound( row.begin(), row.end(), c ); bool const in = it != row.end() && *it == c;
              CHECK_EQ( bool( done ), in, "removed" );
              if( done ) { ent.erase( ent.begin() + ( it - row.begin() ) ); row.erase( it ); --size; }
            }
          }
        }
      }
      else if( op == 2 )
      {
        // A const kernel: whatever is written there is lost.
        bool const scribble = ( isArrays< C > || isMatrix< C > ) && s.boolean( 0.4 );
        LOG( s, "const kernel on the " << nm( where ) << ( scribble ? " scribbling" : "" ) );
        vals.move( where, false ); sizes.move( where, false ); ents.move( where, false );
        int const v = next++;
        auto pc = &compare; auto pe = &compareEntries;
        kernel( where, [ x = a.toViewConst(), pc, pe, where, scribble, v ]( int )
        {
          ( *pc )( x, where, "a const kernel" );
          if constexpr( isMatrix< C > ) ( *pe )( x, where, "a const kernel" ); else ( void ) pe;
          if( !scribble ) return;
          if constexpr( isArrays< C > ) { for( long i = 0; i < x.size(); ++i ) for( int const & q : x[ i ] ) const_cast< int & >( q ) = v; }
          if constexpr( isMatrix< C > ) { for( long i = 0; i < x.numRows(); ++i ) for( int const & q : x.getEntries( i ) ) const_cast< int & >( q ) = v; }
        } );
        ++kernels;
        if( scribble )
        {
          Leaf< Rows > & l = isMatrix< C > ? ents : vals;
          for( std::size_t i = 0; i < l.copy[ where ].size(); ++i ) for( int j = 0; j < sizes.copy[ where ][ i ]; ++j ) l.copy[ where ][ i ][ j ] = v;
        }
      }
      else if( op == 3 )
      {
        bool const t = s.boolean( 0.6 );
        int const via = s.range( 0, 2 );
        LOG( s, "move to the " << nm( where ) << ( t ? " touching" : "" ) << " via " << via );
        auto check = [&]( auto const & v ) { in( where, [&]() { compare( v, where, "move" ); if constexpr( isMatrix< C > ) compareEntries( v, where, "move" ); } ); };
        bool const touched = t && via != 2;
        vals.move( where, touched ); sizes.move( where, touched ); ents.move( where, touched );
        if( via == 0 ) { a.move( lvSpace( where ), t ); check( a ); }
        else if( via == 1 ) { auto v = a.toView(); v.move( lvSpace( where ), t ); check( v ); }
        else { auto v = a.toViewConst(); v.move( lvSpace( where ), t ); check( v ); }
      }
      else if( op == 4 )
      {
        // Values, or entries, change but the structure does not.
        int const v = next++;
        if constexpr( isArrays< C > || isMatrix< C > )
        {
          LOG( s, "kernel with constant sizes on the " << nm( where ) );
          vals.move( where, isArrays< C > ); sizes.move( where, false ); ents.move( where, true );
          auto pc = &compare;
          kernel( where, [ x = a.toViewConstSizes(), pc, where, v ]( int )
          {
            ( *pc )( x, where, "a kernel with constant sizes" );
            if constexpr( isArrays< C > ) { for( long i = 0; i < x.size(); ++i ) for( int & q : x[ i ] ) q = v; }
            else { for( long i = 0; i < x.numRows(); ++i ) for( int & q : x.getEntries( i ) ) q = v; }
          } );
          ++kernels;
          Leaf< Rows > & l = isMatrix< C > ? ents : vals;
          for( std::size_t i = 0; i < l.copy[ where ].size(); ++i ) for( int j = 0; j < sizes.copy[ where ][ i ]; ++j ) l.copy[ where ][ i ][ j ] = v;
        }
      }
      else if( op == 5 )
      {
        if constexpr( isMatrix< C > )
        {
          bool const zero = s.boolean();
          if( zero )
          {
            LOG( s, "zero in the last space" );
            // The entries may be in another space than the rest.
            bool const any = a.nonZeroCapacity() > 0;
            a.zero();
            if( any ) { int const w = ents.last; vals.move( w, false ); sizes.move( w, false ); ents.move( w, true ); for( auto & r : ents.copy[ w ] ) for( int & q : r ) q = 0; }
          }
          else
          {
            int const v = next++;
            LOG( s, "setValues on the " << nm( where ) );
            if( where == H ) a.template setValues< HostExec >( v ); else a.template setValues< DeviceExec >( v );
            vals.move( where, false ); sizes.move( where, false ); ents.move( where, true );
            for( std::size_t i = 0; i < sizes.copy[ where ].size(); ++i ) for( int j = 0; j < sizes.copy[ where ][ i ]; ++j ) ents.copy[ where ][ i ][ j ] = v;
          }
        }
      }
      else if constexpr( isMatrix< C > )
      {
        LOG( s, "kernel over the pattern on the " << nm( where ) );
        vals.move( where, false ); sizes.move( where, false );
        auto pc = &compare;
        kernel( where, [ x = a.toSparsityPatternView(), pc, where ]( int ) { ( *pc )( x, where, "a kernel over the pattern" ); } );
      }
      ses.errors( "an operation" );
    }
    if( kernels >= 2 && crossed >= 2 && sizes.cur().size() >= 1 ) s.nontrivial();
    toHost();
    compare( a, H, "the end" );
    if constexpr( isMatrix< C > ) compareEntries( a, H, "the end" );
  }
  ses.atEnd();
}
Registrar r4( "chai_aoa", []( Src & s ) { if( s.boolean() ) raggedHistory< AoS >( s ); else raggedHistory< AoA >( s ); },
              3000, "at least two kernels over at least one row and two moves between the spaces", true );
Registrar r5( "chai_crs", []( Src & s ) { if( s.boolean( 0.6 ) ) raggedHistory< Matrix >( s ); else raggedHistory< Pattern >( s ); },
              3000, "at least two kernels over at least one row and two moves between the spaces", true );

Registrar r6( "chai_sorted", []( Src & s )
{
  Session ses;
  {
    Sorted a;
    Leaf< std::vector< int > > m;
    int n = 0, kernels = 0;
    while( s.more( n, 60, 20 ) )
    {
      Span sp( s ); ++n;
      int const where = s.range( 0, 1 ), op = int( s.weighted( { 4, 3, 3, 2 } ) );
      if( op == 0 )
      {
        a.move( MemorySpace::host ); m.move( H, true );
        std::vector< int > now = m.last < 0 ? std::vector< int >() : m.copy[ H ];
        int const kind = s.range( 0, 3 ), v = s.range( 0, 30 );
        LOG( s, "host operation " << kind << " value " << v );
        if( kind <= 1 ) { a.insert( v ); auto it = std::lower_bound( now.begin(), now.end(), v ); if( it == now.end() || *it != v ) now.insert( it, v ); }
        else if( kind == 2 ) { a.remove( v ); auto it = std::lower_bound( now.begin(), now.end(), v ); if( it != now.end() && *it == v ) now.erase( it ); }
        else { std::vector< int > x { v, v + 1, v + 5 }; a.insert( x.begin(), x.end() ); for( int q : x ) { auto it = std::lower_bound( now.begin(), now.end(), q ); if( it == now.end() || *it != q ) now.insert( it, q ); } }
        if( a.data() != nullptr ) m.fresh( H, now );
      }
      else if( op == 1 )
      {
        bool const t = s.boolean( 0.6 );
        LOG( s, "move to the " << nm( where ) << ( t ? " touching" : "" ) );
        if( s.boolean() ) { a.move( lvSpace( where ), t ); m.move( where, t && where == H ); }
        else { auto v = a.toView(); v.move( lvSpace( where ), t ); m.move( where, false ); }
      }
      else
      {
        // Nothing written to a sorted array on the device comes back.
        bool const scribble = s.boolean( 0.4 );
        LOG( s, "kernel on the " << nm( where ) << ( scribble ? " scribbling" : "" ) );
        m.move( where, false );
        std::vector< int > const want = m.last < 0 ? std::vector< int >() : m.copy[ where ];
        kernel( where, [ v = a.toView(), &want, where, scribble ]( int )
        {
          CHECK_EQ( long( v.size() ), long( want.size() ), "size" );
          if( want.empty() ) return;
          CHECK_EQ( spaceOf( v.data() ), where, "space of the pointer" );
          for( std::size_t i = 0; i < want.size(); ++i ) CHECK_EQ( v[ i ], want[ i ], "value ", i, " on the ", nm( where ) );
          for( int q = 0; q < 36; ++q ) if( std::is_sorted( want.begin(), want.end() ) ) CHECK_EQ( v.contains( q ), std::binary_search( want.begin(), want.end(), q ), "contains ", q );
          if( scribble ) for( long i = 0; i < v.size(); ++i ) const_cast< int & >( v[ i ] ) += 1;
        } );
        if( scribble && m.last >= 0 ) for( int & q : m.copy[ where ] ) q += 1;
        ++kernels;
      }
      ses.errors( "an operation" );
    }
    if( kernels >= 2 && m.moves >= 2 ) s.nontrivial();
  }
  ses.atEnd();
}, 3000, "at least two kernels and two copies between the spaces", true );

// ------------------------------------------------------------------------------------------------- arrays of the other containers
Registrar r7( "chai_nested_aoa", []( Src & s )
{
  Session ses;
  {
    A1< AoA > a;
    std::vector< Leaf< Rows > > m;
    int n = 0, next = 1, kernels = 0, crossed = 0, outer = -1;
    auto moveAll = [&]( int const to, bool const t ) { if( a.size() == 0 ) return; if( outer >= 0 && outer != to ) ++crossed; outer = to; for( auto & l : m ) l.move( to, t ); };
    while( s.more( n, 50, 16 ) )
    {
      Span sp( s ); ++n;
      int const where = s.range( 0, 1 ), op = int( s.weighted( { 4, 3, 3, 2 } ) );
      if( op == 0 )
      {
        a.move( MemorySpace::host ); moveAll( H, true );
        int const kind = s.range( 0, 2 );
        LOG( s, "host operation " << kind );
        if( kind == 0 || a.size() == 0 )
        {
          a.emplace_back();
          Leaf< Rows > l; l.fresh( H, Rows() ); m.push_back( l ); outer = H;
        }
        else
        {
          long const i = s.range< long >( 0, a.size() - 1 );
          Rows r = m[ i ].copy[ H ];
          if( kind == 1 || r.empty() ) { std::vector< int > v; int const len = s.range( 0, 3 ); for( int j = 0; j < len; ++j ) v.push_back( next++ ); a[ i ].appendArray( v.begin(), v.end() ); r.push_back( v ); }
          else { long const j = s.range< long >( 0, r.size() - 1 ); a[ i ].emplaceBack( j, next ); r[ j ].push_back( next++ ); }
          m[ i ].fresh( H, r );
        }
      }
      else if( op == 3 )
      {
        bool const t = s.boolean();
        LOG( s, "move to the " << nm( where ) << ( t ? " touching" : "" ) );
        a.move( lvSpace( where ), t ); moveAll( where, t );
      }
      else
      {
        bool const write = op == 1;
        LOG( s, ( write ? "" : "const " ) << "kernel on the " << nm( where ) );
        moveAll( where, write );
        auto const * pm = &m; int const first = next;
        auto body = [ pm, where, first, write ]( auto const & v )
        {
          CHECK_EQ( long( v.size() ), long( pm->size() ), "number of containers" );
          int f = first;
          for( std::size_t i = 0; i < pm->size(); ++i )
          {
            Rows const & r = ( *pm )[ i ].copy[ where ];
            CHECK_EQ( long( v[ i ].size() ), long( r.size() ), "number of arrays" );
            for( std::size_t j = 0; j < r.size(); ++j )
            {
              CHECK_EQ( long( v[ i ].sizeOfArray( j ) ), long( r[ j ].size() ), "size of an array on the ", nm( where ) );
              for( std::size_t k = 0; k < r[ j ].size(); ++k ) { CHECK_EQ( v[ i ]( j, k ), r[ j ][ k ], "value on the ", nm( where ) ); if( write ) const_cast< int & >( v[ i ]( j, k ) ) = f++; }
            }
          }
        };
        if( write ) kernel( where, [ v = a.toNestedView(), body ]( int ) { body( v ); } );
        else kernel( where, [ v = a.toNestedViewConst(), body ]( int ) { body( v ); } );
        if( write ) for( auto & l : m ) for( auto & r : l.copy[ where ] ) for( int & q : r ) q = next++;
        ++kernels;
      }
      ses.errors( "an operation" );
    }
    if( kernels >= 2 && crossed >= 2 && !m.empty() ) s.nontrivial();
  }
  ses.atEnd();
}, 2000, "at least two kernels over at least one container and two moves between the spaces", true );

Registrar r8( "chai_nested_sorted", []( Src & s )
{
  Session ses;
  {
    A1< Sorted > a;
    std::vector< std::set< int > > m;
    int n = 0, kernels = 0, crossed = 0, outer = -1;
    auto cross = [&]( int const to ) { if( outer >= 0 && outer != to ) ++crossed; outer = to; };
    while( s.more( n, 50, 16 ) )
    {
      Span sp( s ); ++n;
      int const where = s.range( 0, 1 ), op = int( s.weighted( { 4, 3, 2 } ) );
      if( op == 0 )
      {
        a.move( MemorySpace::host ); cross( H );
        int const v = s.range( 0, 20 );
        LOG( s, "host operation with " << v );
        if( m.empty() || s.boolean( 0.3 ) ) { a.emplace_back(); m.emplace_back(); }
        else { long const i = s.range< long >( 0, m.size() - 1 ); if( s.boolean( 0.3 ) ) CHECK_EQ( a[ i ].remove( v ), m[ i ].erase( v ) > 0, "removed" ); else CHECK_EQ( a[ i ].insert( v ), m[ i ].insert( v ).second, "inserted" ); }
      }
      else if( op == 1 )
      {
        LOG( s, "kernel on the " << nm( where ) ); cross( where );
        auto const * pm = &m;
        kernel( where, [ v = a.toNestedView(), pm, where ]( int )
        {
          CHECK_EQ( long( v.size() ), long( pm->size() ), "number of containers" );
          for( std::size_t i = 0; i < pm->size(); ++i )
          {
            CHECK_EQ( long( v[ i ].size() ), long( ( *pm )[ i ].size() ), "size on the ", nm( where ) );
            long k = 0; for( int q : ( *pm )[ i ] ) CHECK_EQ( v[ i ][ k++ ], q, "value on the ", nm( where ) );
          }
        } );
        ++kernels;
      }
      else { bool const t = s.boolean(); LOG( s, "move to the " << nm( where ) ); cross( where ); a.move( lvSpace( where ), t ); }
      ses.errors( "an operation" );
    }
    if( kernels >= 2 && crossed >= 2 && !m.empty() ) s.nontrivial();
  }
  ses.atEnd();
}, 2000, "at least two kernels over at least one container and two moves between the spaces", true );
