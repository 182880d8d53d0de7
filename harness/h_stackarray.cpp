// C16: a stack array is a heap array that lives inside its object and never outgrows it.
#include "arr.hpp"
using namespace pbt;
using namespace lv;
using LvArray::MallocBuffer;

template< typename T, int N, typename PERM, typename INDEX, int CAP >
void stackHistory( Src & s )
{
  using S = LvArray::StackArray< T, N, PERM, INDEX, CAP >;
  using H = LvArray::Array< T, N, PERM, INDEX, MallocBuffer >;
  struct Guarded { unsigned char before[ 64 ]; S a; unsigned char after[ 64 ]; Guarded() { std::memset( before, 0xa5, 64 ); std::memset( after, 0x5a, 64 ); }
                   bool intact() const { for( int i = 0; i < 64; ++i ) if( before[ i ] != 0xa5 || after[ i ] != 0x5a ) return false; return true; } };
  auto gp = std::make_unique< Guarded >();
  S & a = gp->a;
  H h;
  int next = 1;
  auto inside = [&]( S const & x ) { auto const * p = reinterpret_cast< char const * >( x.data() ); auto const * o = reinterpret_cast< char const * >( &x ); return p >= o && p + CAP * sizeof( T ) <= o + sizeof( S ); };
  auto same = [&]( auto const & x, auto const & y, char const * w )
  {
    Ix< N > d {};
    for( int k = 0; k < N; ++k )
    {
      CHECK_EQ( long( x.size( k ) ), long( y.size( k ) ), w );
      CHECK_EQ( long( x.strides()[ k ] ), long( y.strides()[ k ] ), w );
      d[ k ] = x.size( k );
    }
    CHECK_EQ( x.size(), y.size(), w );
    CHECK_EQ( x.getSingleParameterResizeIndex(), y.getSingleParameterResizeIndex(), w );
    forAll< N >( d, [&]( Ix< N > const & i ) { CHECK_EQ( val( at< N >( x, i ) ), val( at< N >( y, i ) ), "at ", str< N >( i ), " after ", w ); } );
    long c = 0;
    for( T const & t : x ) CHECK( &t == x.data() + c++ );
  };
  auto refill = [&]()
  {
    Ix< N > d {};
    for( int k = 0; k < N; ++k ) d[ k ] = a.size( k );
    forAll< N >( d, [&]( Ix< N > const & i ) { int const v = next++ % 1000; at< N >( a, i ) = mk< T >( v ); at< N >( h, i ) = mk< T >( v ); } );
  };
  CHECK( inside( a ), "the values are not inside the object" );
  CHECK_EQ( long( a.capacity() ), long( CAP ) );
  std::size_t n = 0;
  int rIndex = 0, work = 0;
  while( s.more( n, 40, 14 ) )
  {
    Span sp( s ); ++n;
    Ix< N > cur {};
    for( int k = 0; k < N; ++k ) cur[ k ] = a.size( k );
    long const size = a.size();
    /// Run an operation on the stack array that must be refused; the array is rebuilt from the heap array afterwards.
    auto refused = [&]( char const * w, auto && f )
    {
      LOG( s, w << " beyond the capacity" );
      // Never destroyed: the array is left with its new dimensions but without the storage for them.
      alignas( Guarded ) unsigned char storage[ sizeof( Guarded ) ];
      Guarded * const g2 = new ( storage ) Guarded;
      g2->a = a;
      CHECK( reportsError( [&]() { f( g2->a ); } ), w, " beyond the capacity of ", CAP, " was accepted" );
      CHECK( g2->intact(), w, " wrote outside the object" );
      s.label( "refused" );
    };
    switch( s.weighted( { 4, 4, 3, 2, 2, 1, 1, 2, 3, 3, 2, 2, 2, 2, 1 } ) )
    {
      case 0:
      {
        Ix< N > const d = genDims< N >( s, N == 1 ? CAP + 10 : 6, N == 1 ? CAP + 10 : 3 * CAP );
        if( prod< N >( d ) > CAP ) { refused( "resize", [&]( S & x ) { resizeTo( x, d ); } ); break; }
        LOG( s, "resize " << str< N >( d ) );
        resizeTo( a, d ); resizeTo( h, d );
        if( N > 1 ) refill();
        break;
      }
      case 1: case 2:
      {
        long const len = s.range< long >( 0, N == 1 ? CAP + 5 : 7 );
        Ix< N > d = cur; d[ rIndex ] = len;
        bool const withDefault = s.boolean();
        T const f = mk< T >( next++ % 1000 );
        if( prod< N >( d ) > CAP ) { refused( withDefault ? "resizeDefault" : "resize( n )", [&]( S & x ) { if( withDefault ) x.resizeDefault( INDEX( len ), f ); else x.resize( INDEX( len ) ); } ); break; }
        LOG( s, "resize dimension " << rIndex << " to " << len );
        if( withDefault ) { a.resizeDefault( INDEX( len ), f ); h.resizeDefault( INDEX( len ), f ); }
        else { a.resize( INDEX( len ) ); h.resize( INDEX( len ) ); }
        ++work; break;
      }
      case 3: LOG( s, "refill" ); refill(); break;
      case 4:
      {
        long const c = s.range< long >( 0, CAP + 10 );
        if( c > CAP ) { refused( "reserve", [&]( S & x ) { x.reserve( INDEX( c ) ); } ); break; }
        LOG( s, "reserve " << c ); a.reserve( INDEX( c ) ); CHECK_EQ( long( a.capacity() ), long( CAP ) ); break;
      }
      case 5: LOG( s, "clear" ); a.clear(); h.clear(); break;
      case 6: rIndex = s.range( 0, N - 1 ); LOG( s, "resize index " << rIndex ); a.setSingleParameterResizeIndex( rIndex ); h.setSingleParameterResizeIndex( rIndex ); break;
      case 7:
      {
        LOG( s, "copy and move" );
        S b( a );
        CHECK( inside( b ) && b.data() != a.data(), "the copy shares its values" );
        same( b, h, "copy" );
        forAll< N >( cur, [&]( Ix< N > const & i ) { at< N >( b, i ) = mk< T >( 3 ); } );
        same( a, h, "modification of a copy" );
        b = a;
        same( b, h, "copy assignment" );
        S c( std::move( b ) );
        CHECK( inside( c ) );
        same( c, h, "move" );
        CHECK_EQ( long( b.size() ), 0L, "moved from array" );
        S d;
        d = std::move( c );
        CHECK( inside( d ) );
        same( d, h, "move assignment" );
        CHECK_EQ( long( c.size() ), 0L, "moved from array" );
        if( s.boolean() ) a = std::move( d );
        break;
      }
      case 8: { T const t = mk< T >( next++ % 1000 ); LOG( s, "setValues" ); a.template setValues< RAJA::seq_exec >( t ); h.template setValues< RAJA::seq_exec >( t ); break; }
      case 9: LOG( s, "zero" ); a.zero(); h.zero(); break;
      case 10:
      {
        LOG( s, "setValues of a view" );
        S b( a ); H hb( h );
        forAll< N >( cur, [&]( Ix< N > const & i ) { int const v = next++ % 1000; at< N >( b, i ) = mk< T >( v ); at< N >( hb, i ) = mk< T >( v ); } );
        a.template setValues< RAJA::seq_exec >( b.toViewConst() ); h.template setValues< RAJA::seq_exec >( hb.toViewConst() );
        break;
      }
      case 11:
        if constexpr( N == 1 )
        {
          T const t = mk< T >( next++ % 1000 );
          if( size == CAP ) { refused( "emplace_back", [&]( S & x ) { x.emplace_back( t ); } ); break; }
          long const pos = s.range< long >( 0, size );
          LOG( s, "emplace at " << pos );
          if( pos == size ) { a.emplace_back( t ); h.emplace_back( t ); } else { a.emplace( INDEX( pos ), t ); h.emplace( INDEX( pos ), t ); }
          ++work;
        }
        break;
      case 12:
        if constexpr( N == 1 )
        {
          std::vector< T > c( s.range< int >( 0, CAP / 2 ) );
          for( T & t : c ) t = mk< T >( next++ % 1000 );
          long const pos = s.range< long >( 0, size );
          if( size + long( c.size() ) > CAP ) { refused( "insert", [&]( S & x ) { x.insert( INDEX( pos ), c.begin(), c.end() ); } ); break; }
          LOG( s, "insert " << c.size() << " at " << pos );
          a.insert( INDEX( pos ), c.begin(), c.end() ); h.insert( INDEX( pos ), c.begin(), c.end() );
          ++work;
        }
        break;
      case 13:
        if constexpr( N == 1 )
          if( size ) { long const pos = s.range< long >( 0, size - 1 ); LOG( s, "erase " << pos ); if( s.boolean() ) { a.erase( INDEX( pos ) ); h.erase( INDEX( pos ) ); } else { a.pop_back(); h.pop_back(); } ++work; }
        break;
      default:
      {
        // Slices alias the object, the const view of another array has its own values.
        LOG( s, "write through a slice" );
        auto const sl = a.toSlice();
        forAll< N >( cur, [&]( Ix< N > const & i ) { int const v = next++ % 1000; chain< N >( sl, i ) = mk< T >( v ); at< N >( h, i ) = mk< T >( v ); } );
      }
    }
    CHECK( inside( a ), "the values left the object" );
    CHECK_EQ( long( a.capacity() ), long( CAP ) );
    same( a, h, "operation" );
    CHECK( gp->intact(), "an operation wrote outside the object" );
  }
  if( work > 2 && a.size() > 0 ) s.nontrivial();
}

using Fn = void ( * )( Src & );
using P = std::ptrdiff_t;
#define DEF( NAME, ... ) static void NAME( Src & s ) { static Fn const f[] = { __VA_ARGS__ }; f[ s.range< int >( 0, sizeof( f ) / sizeof( f[ 0 ] ) - 1 ) ]( s ); }
DEF( one, stackHistory< int, 1, RAJA::PERM_I, P, 20 >, stackHistory< double, 1, RAJA::PERM_I, int, 7 >, stackHistory< short, 1, RAJA::PERM_I, int, 1 >, stackHistory< short, 1, RAJA::PERM_I, P, 64 > )
DEF( many, stackHistory< int, 2, RAJA::PERM_IJ, P, 12 >, stackHistory< double, 2, RAJA::PERM_JI, int, 9 >, stackHistory< int, 3, RAJA::PERM_KIJ, P, 27 >, stackHistory< short, 3, RAJA::PERM_JIK, int, 16 > )
static char const * const rule = "more than two size changes and the array ends up with values";
static Registrar r1( "stack.1d", one, 6000, rule );
static Registrar r2( "stack.nd", many, 6000, rule );
