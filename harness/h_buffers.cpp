// C30: buffers obey the buffer contract and the algorithms over them produce what a vector would.
#include "lv.hpp"
#include "elem.hpp"
#include "bufferManipulation.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include <list>
using namespace pbt;
using namespace lv;
using namespace LvArray;
namespace bm = LvArray::bufferManipulation;
static_assert( MemorySpace::host == camp::resources::Platform::host, "" );

/// A family of buffers with their reference contents.
template< typename BUF, long CAP >
void bufferHistory( Src & s )
{
  using T = typename BUF::value_type;
  constexpr bool fixed = !BUF::hasShallowCopy;
  resetLedger();
  struct One { BUF b { true }; std::vector< int > v; };
  std::vector< std::unique_ptr< One > > all;
  for( int i = 0; i < 3; ++i ) all.push_back( std::make_unique< One >() );
  int next = 1, work = 0, realloc = 0;
  auto fresh = [&]() { return next++ % 5000; };
  std::size_t n = 0;
  auto totalLive = [&]() { long t = 0; for( auto & o : all ) t += o->v.size(); return t; };
  while( s.more( n, 60, 22 ) )
  {
    Span sp( s ); ++n;
    std::size_t const which = s.range< int >( 0, all.size() - 1 );
    One & o = *all[ which ];
    BUF & b = o.b;
    long const size = o.v.size();
    long const cap = b.capacity();
    auto room = [&]( long extra ) { return !fixed || size + extra <= CAP; };
    switch( s.weighted( { 4, 4, 4, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1 } ) )
    {
      case 0: if( room( 1 ) ) { int const x = fresh(); LOG( s, "buffer " << which << " emplaceBack " << x ); bm::emplaceBack( b, size, mk< T >( x ) ); o.v.push_back( x ); ++work; CHECK( long( b.capacity() ) > size ); } break;
      case 1: if( room( 1 ) ) { int const x = fresh(); long const p = s.range< long >( 0, size ); LOG( s, "buffer " << which << " emplace " << x << " at " << p ); T const t = mk< T >( x ); bm::emplace( b, size, p, t ); o.v.insert( o.v.begin() + p, x ); ++work; } break;
      case 2:
      {
        int const k = s.range< int >( 0, 6 * s.large( 100, 0.05 ) );
        if( !room( k ) ) break;
        long const p = s.range< long >( 0, size );
        std::list< T > c; std::vector< int > x;
        for( int i = 0; i < k; ++i ) { x.push_back( fresh() ); c.push_back( mk< T >( x.back() ) ); }
        LOG( s, "buffer " << which << " insert " << k << " at " << p );
        std::ptrdiff_t const r = bm::insert( b, size, p, c.begin(), c.end() );
        CHECK_EQ( long( r ), long( k ) );
        o.v.insert( o.v.begin() + p, x.begin(), x.end() );
        ++work; break;
      }
      case 3: if( size ) { LOG( s, "buffer " << which << " popBack" ); bm::popBack( b, size ); o.v.pop_back(); } break;
      case 4: if( size ) { long const p = s.range< long >( 0, size - 1 ); LOG( s, "buffer " << which << " erase " << p ); bm::erase( b, size, p ); o.v.erase( o.v.begin() + p ); ++work; } break;
      case 5:
      {
        long const k = s.range< long >( 0, fixed ? CAP : 40 );
        bool const with = s.boolean();
        int const x = with ? fresh() : dflt< T >();
        LOG( s, "buffer " << which << " resize " << size << " -> " << k << " with " << x );
        if( with ) { T const t = mk< T >( x ); bm::resize( b, size, k, t ); } else bm::resize( b, size, k );
        o.v.resize( k, x );
        CHECK( long( b.capacity() ) >= k );
        break;
      }
      case 6:
      {
        long const k = s.range< long >( 0, fixed ? CAP : 60 );
        LOG( s, "buffer " << which << " reserve " << k );
        bm::reserve( b, size, MemorySpace::host, k );
        CHECK_EQ( long( b.capacity() ), fixed ? CAP : std::max( cap, k ), "reserve" );
        if( long( b.capacity() ) != cap && size ) ++realloc;
        break;
      }
      case 7:
      {
        long const k = s.range< long >( 0, fixed ? CAP : 60 );
        LOG( s, "buffer " << which << " dynamicReserve " << k );
        bm::dynamicReserve( b, size, k );
        CHECK( long( b.capacity() ) >= k && long( b.capacity() ) >= cap, "dynamicReserve" );
        break;
      }
      case 8:
      {
        // Any capacity, also below the size: the prefix that fits survives.
        long const k = s.range< long >( 0, fixed ? CAP : 40 );
        if( fixed && k < size ) break;
        bool const raw = s.boolean();
        LOG( s, "buffer " << which << ( raw ? " reallocate " : " setCapacity " ) << k );
        if( raw ) b.reallocate( size, MemorySpace::host, k ); else bm::setCapacity( b, size, MemorySpace::host, k );
        CHECK_EQ( long( b.capacity() ), fixed ? CAP : k, "setCapacity" );
        if( k < size ) { o.v.resize( k ); s.label( "shrunk below the size" ); }
        if( size ) ++realloc;
        break;
      }
      case 9:
      {
        std::size_t const other = s.range< int >( 0, all.size() - 1 );
        LOG( s, "copyInto " << which << " from " << other );
        One & src = *all[ other ];
        bm::copyInto( b, size, src.b, src.v.size() );
        o.v = src.v;
        break;
      }
      case 10:
      {
        LOG( s, "free " << which );
        bm::free( b, size );
        CHECK_EQ( long( b.capacity() ), fixed ? CAP : 0L );
        if( !fixed ) CHECK( b.data() == nullptr, "data after free" );
        o.v.clear();
        break;
      }
      case 11:
      {
        LOG( s, "copy " << which );
        BUF const c( b );
        BUF const c2( b, size );
        BUF c3 { true };
        if( !fixed ) c3.free();
        c3 = b;
        for( BUF const * p : { &c, &c2, static_cast< BUF const * >( &c3 ) } )
        {
          CHECK_EQ( long( p->capacity() ), cap );
          if( !fixed ) CHECK( p->data() == b.data(), "a shallow copy has other data" ); else CHECK( p->data() != b.data(), "a deep copy shares the data" );
          for( long i = 0; i < size; ++i ) { CHECK_EQ( val( ( *p )[ i ] ), o.v[ i ], "copy at ", i ); CHECK( &( *p )[ i ] == p->data() + i ); }
        }
        if( fixed && size ) { c.data()[ 0 ] = mk< T >( 4 ); CHECK_EQ( val( b[ 0 ] ), o.v[ 0 ], "the deep copy aliases" ); }
        if( !fixed && size ) { int const x = fresh(); c[ size - 1 ] = mk< T >( x ); o.v[ size - 1 ] = x; }
        break;
      }
      case 12:
      {
        LOG( s, "move " << which );
        T * const d = b.data();
        BUF c( std::move( b ) );
        CHECK_EQ( long( c.capacity() ), cap );
        if( !fixed ) { CHECK( c.data() == d, "move construction does not steal" ); CHECK( b.data() == nullptr && b.capacity() == 0, "the moved from buffer is not empty" ); }
        for( long i = 0; i < size; ++i ) CHECK_EQ( val( c[ i ] ), o.v[ i ], "moved at ", i );
        // b was stolen from, so it holds nothing that assignment could lose.
        b = std::move( c );
        if( !fixed ) { CHECK( b.data() == d, "move assignment does not steal" ); CHECK( c.data() == nullptr && c.capacity() == 0, "the moved from buffer is not empty" ); }
        break;
      }
      case 13:
        if constexpr( fixed )
        {
          int const kind = s.range( 0, 3 );
          LOG( s, "overflow " << kind );
          long const k = CAP + s.range( 1, 9 );
          T const t = mk< T >( 1 );
          bool const err = reportsError( [&]()
          {
            if( kind == 0 ) b.reallocate( size, MemorySpace::host, k );
            else if( kind == 1 ) bm::reserve( b, size, MemorySpace::host, k );
            else if( kind == 2 ) bm::resize( b, size, k, t );
            else { std::vector< T > c( k - size, t ); bm::insert( b, size, 0, c.begin(), c.end() ); }
          } );
          CHECK( err, "capacity ", k, " of ", CAP, " was accepted" );
        }
        break;
      case 14:
      {
        int const kind = s.range( 0, 6 );
        LOG( s, "spaces " << kind );
        MemorySpace const bad = std::vector< MemorySpace >{ MemorySpace::cuda, MemorySpace::hip, MemorySpace::undefined, MemorySpace::omp_target }[ s.range( 0, 3 ) ];
        b.move( MemorySpace::host, s.boolean() );
        b.moveNested( MemorySpace::host, size, s.boolean() );
        b.registerTouch( MemorySpace::host );
        b.template setName< BUF >( "name" );
        CHECK( b.getPreviousSpace() == MemorySpace::host );
        if( kind == 0 ) CHECK( reportsError( [&]() { b.move( bad, true ); } ) );
        if( kind == 1 ) CHECK( reportsError( [&]() { b.moveNested( bad, size, true ); } ) );
        if( kind == 2 ) CHECK( reportsError( [&]() { b.registerTouch( bad ); } ) );
        if constexpr( !fixed ) if( kind == 3 ) CHECK( reportsError( [&]() { b.reallocate( size, bad, cap + 3 ); } ) );
        break;
      }
      default:
      {
        LOG( s, "const view" );
        auto check = [&]( auto const & c ) { CHECK_EQ( long( c.capacity() ), cap ); for( long i = 0; i < size; ++i ) CHECK_EQ( val( c[ i ] ), o.v[ i ] ); if( !fixed ) CHECK( c.data() == b.data() ); };
        if constexpr( fixed ) check( StackBuffer< T const, CAP >( b ) );
        else check( MallocBuffer< T const >( b ) );
      }
    }
    if( long( b.capacity() ) != cap && size ) ++realloc;
    checkLedger( isTracked< T > ? totalLive() : -1, "operation" );
    for( auto & p : all )
    {
      CHECK( long( p->b.capacity() ) >= long( p->v.size() ) );
      for( std::size_t i = 0; i < p->v.size(); ++i ) CHECK_EQ( val( p->b[ i ] ), p->v[ i ], "value ", i );
    }
  }
  for( auto & p : all ) bm::free( p->b, p->v.size() );
  checkLedger( 0, "free" );
  if( work > 2 && ( realloc || fixed ) ) s.nontrivial();
}

/// Reinterpretation of a heap buffer as another element size.
static void reinterpret( Src & s )
{
  struct Two { int a, b; };
  MallocBuffer< int > b( true );
  long const k = s.range< long >( 0, 40 );
  b.reallocate( 0, MemorySpace::host, k );
  for( long i = 0; i < k; ++i ) b[ i ] = int( i );
  LOG( s, "capacity " << k );
  if( k % 2 ) CHECK( reportsError( [&]() { MallocBuffer< Two > c( b ); } ), "an odd capacity became pairs" );
  else
  {
    MallocBuffer< Two > const c( b );
    CHECK_EQ( long( c.capacity() ), k / 2 );
    CHECK( static_cast< void * >( c.data() ) == b.data() );
    for( long i = 0; i < k / 2; ++i ) CHECK( c[ i ].a == 2 * i && c[ i ].b == 2 * i + 1 );
    MallocBuffer< int > const d( c );
    CHECK_EQ( long( d.capacity() ), k );
    MallocBuffer< char > const e( c );
    CHECK_EQ( long( e.capacity() ), 4 * k );
    if( k > 2 ) s.nontrivial();
  }
  b.free();
}

static char const * const rule = "more than two values added or removed and, for heap buffers, storage with values was reallocated";
static Registrar r1( "heap.int", bufferHistory< MallocBuffer< int >, 0 >, 3000, rule, true );
static Registrar r9( "heap.init", bufferHistory< MallocBuffer< Init >, 0 >, 1500, rule, true );
static Registrar r10( "heap.placed", bufferHistory< MallocBuffer< Placed >, 0 >, 1500, rule, true );
static Registrar r2( "heap.tracked", bufferHistory< MallocBuffer< Tracked >, 0 >, 4000, rule, true );
static Registrar r3( "heap.string", bufferHistory< MallocBuffer< std::string >, 0 >, 3000, rule, true );
static Registrar r4( "stack.int", bufferHistory< StackBuffer< int, 17 >, 17 >, 3000, rule );
static Registrar r5( "stack.double", bufferHistory< StackBuffer< double, 5 >, 5 >, 2000, rule );
static Registrar r6( "reinterpret", reinterpret, 500, "an even capacity above two", true );
