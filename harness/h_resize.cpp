// C13: resizing by every interface gives the requested shape, keeps what must be kept and initialises the rest.
#include "arr.hpp"
using namespace pbt;
using namespace lv;

template< typename T, int N, typename PERM, typename INDEX, template< typename > class BUF >
void resizeHistory( Src & s )
{
  using A = LvArray::Array< T, N, PERM, INDEX, BUF >;
  resetLedger();
  {
    A a;
    Logical< N > m;
    int next = 1;
    int rIndex = 0;
    long const f = s.large( 16 );
    long const maxLen = f * ( N == 1 ? 40 : N == 2 ? 9 : 5 );
    auto track = [&]( char const * w ) { checkLedger( isTracked< T > ? m.size() : -1, w ); };
    auto refill = [&]() { forAll< N >( m.dims, [&]( Ix< N > const & i ) { int const v = next++ % 1000; m( i ) = v; at< N >( a, i ) = mk< T >( v ); } ); };
    // After a resize of the whole shape: values are unspecified for N > 1, but the objects have to be there.
    auto shapeChanged = [&]( Ix< N > const & d, char const * w )
    {
      Logical< N > old = m;
      m.dims = d; m.v.assign( m.size(), dflt< T >() );
      for( int k = 0; k < N; ++k ) CHECK_EQ( long( a.size( k ) ), d[ k ], w );
      CHECK_EQ( long( a.size() ), m.size(), w );
      if( N == 1 )
      {
        for( long i = 0; i < std::min( old.size(), m.size() ); ++i ) m.v[ i ] = old.v[ i ];
      }
      else
      {
        // Every value is either an old one or a value initialised one, and new ones appear only beyond the old size.
        std::multiset< int > have;
        for( int x : old.v ) have.insert( x );
        long fresh = 0;
        forAll< N >( d, [&]( Ix< N > const & i ) { int const v = val( at< N >( a, i ) ); auto it = have.find( v ); if( it != have.end() ) have.erase( it ); else { CHECK_EQ( v, dflt< T >(), "new value at ", str< N >( i ), " after ", w ); ++fresh; } m( i ) = v; } );
        CHECK( fresh <= std::max( 0L, m.size() - old.size() ), "values lost without need: ", fresh, " after ", w );
      }
    };
    std::size_t n = 0;
    int structural = 0;
    if( !s.boolean( 0.2 ) )
    {
      m.dims = genDims< N >( s, maxLen, 120 * f ); m.v.assign( m.size(), 0 );
      rIndex = s.range( 0, N - 1 );
      LOG( s, "start with " << str< N >( m.dims ) << " resizing dimension " << rIndex );
      resizeTo( a, m.dims ); a.setSingleParameterResizeIndex( rIndex ); refill();
    }
    while( s.more( n, 25, 9 ) )
    {
      Span sp( s ); ++n;
      auto const op = s.weighted( { 3, 2, 2, 6, 6, 1, 2, 3, 1, 1, 1, 1 } );
      switch( op )
      {
        case 0:
        {
          Ix< N > d = genDims< N >( s, maxLen, 120 * f );
          LOG( s, "resize" << str< N >( d ) );
          resizeTo( a, d ); shapeChanged( d, "resize( dims... )" ); track( "resize( dims... )" ); if( N > 1 ) refill(); ++structural; break;
        }
        case 1:
        {
          Ix< N > d = genDims< N >( s, maxLen, 120 * f );
          LOG( s, "resizePtr" << str< N >( d ) );
          if( s.boolean() ) a.resize( N, d.data() );
          else { short q[ N ]; for( int k = 0; k < N; ++k ) q[ k ] = short( d[ k ] ); a.resize( N, q ); }
          shapeChanged( d, "resize( n, ptr )" ); track( "resize( n, ptr )" ); if( N > 1 ) refill(); ++structural; break;
        }
        case 2:
        {
          Ix< N > d = genDims< N >( s, maxLen, 120 * f );
          Ix< N > r = m.dims;
          int const which = s.range( 0, 3 );
          if( which == 0 ) { r[ 0 ] = d[ 0 ]; if( prod< N >( r ) > 400 * f ) break; a.template resizeDimension< 0 >( d[ 0 ] ); }
          else if( which == 1 ) { r[ N - 1 ] = d[ N - 1 ]; if( prod< N >( r ) > 400 * f ) break; a.template resizeDimension< N - 1 >( int( d[ N - 1 ] ) ); }
          else if( which == 2 && N > 1 )
          {
            constexpr int L = N > 1 ? N - 1 : 0;
            r[ 0 ] = d[ 0 ]; r[ L ] = d[ L ]; if( prod< N >( r ) > 400 * f ) break;
            if constexpr( N > 1 ) a.template resizeDimension< 0, L >( d[ 0 ], unsigned( d[ L ] ) );
          }
          else if( which == 3 && N > 2 )
          {
            r[ 1 ] = d[ 1 ]; r[ 2 % N ] = d[ 2 % N ]; if( prod< N >( r ) > 400 * f ) break;
            if constexpr( N > 2 ) a.template resizeDimension< 1, 2 >( d[ 1 ], d[ 2 ] );
          }
          LOG( s, "resizeDimension kind " << which << " -> " << str< N >( r ) );
          shapeChanged( r, "resizeDimension" ); track( "resizeDimension" ); if( N > 1 ) refill(); ++structural; break;
        }
        case 3: case 4:
        {
          long const cur = m.dims[ rIndex ];
          long const len = s.boolean( 0.15 ) ? cur : s.range< long >( 0, maxLen );
          Logical< N > old = m;
          m.dims[ rIndex ] = len;
          if( m.size() > 600 ) { m = old; break; }
          int fill = dflt< T >();
          if( op == 3 ) { LOG( s, "resize(" << len << ") of dimension " << rIndex ); a.resize( INDEX( len ) ); }
          else if( old.size() && s.boolean( 0.3 ) )
          {
            // The default may be one of the values of the array.
            Ix< N > ix {}; for( int k = 0; k < N; ++k ) ix[ k ] = s.range< long >( 0, old.dims[ k ] - 1 );
            fill = old( ix ); LOG( s, "resizeDefault(" << len << ", own value " << str< N >( ix ) << ") of dimension " << rIndex ); a.resizeDefault( INDEX( len ), at< N >( a, ix ) );
          }
          else { fill = next++ % 1000; LOG( s, "resizeDefault(" << len << "," << fill << ") of dimension " << rIndex ); T const f = mk< T >( fill ); a.resizeDefault( INDEX( len ), f ); if( isTracked< T > ) { checkLedger( m.size() + 1, "resizeDefault with the default alive" ); } CHECK_EQ( val( f ), fill, "the default was modified" ); }
          m.v.assign( m.size(), fill );
          forAll< N >( m.dims, [&]( Ix< N > const & i ) { if( i[ rIndex ] < old.dims[ rIndex ] ) m( i ) = old( i ); } );
          if( old.size() > 0 && m.size() > 0 && len != cur ) { s.label( len > cur ? "grow keeping values" : "shrink keeping values" ); s.nontrivial(); }
          ++structural; break;
        }
        case 5: LOG( s, "clear" ); a.clear(); m.dims[ rIndex ] = 0; m.v.clear(); break;
        case 6:
        {
          long const c = s.range< long >( 0, 300 );
          long const before = a.capacity();
          LOG( s, "reserve " << c );
          a.reserve( INDEX( c ) );
          CHECK( long( a.capacity() ) >= c, "capacity ", a.capacity(), " after reserve ", c );
          CHECK( long( a.capacity() ) >= before, "reserve shrank the capacity" );
          if( c > before ) s.label( "reserve reallocated" );
          break;
        }
        case 7: LOG( s, "refill" ); refill(); break;
        case 8: rIndex = s.range( 0, N - 1 ); LOG( s, "setSingleParameterResizeIndex " << rIndex ); a.setSingleParameterResizeIndex( rIndex ); CHECK_EQ( a.getSingleParameterResizeIndex(), rIndex ); break;
        case 9:
          if constexpr( std::is_trivially_copyable< T >::value )
          {
            Ix< N > d = genDims< N >( s, maxLen, 120 * f );
            Logical< N > old = m;
            LOG( s, "resizeWithoutInitializationOrDestruction" << str< N >( d ) );
            [&]< std::size_t... K >( std::index_sequence< K... > )
            {
              if( s.boolean() ) a.resizeWithoutInitializationOrDestruction( d[ K ] ... );
              else a.resizeWithoutInitializationOrDestruction( LvArray::MemorySpace::host, d[ K ] ... );
            }( std::make_index_sequence< N >() );
            m.dims = d; m.v.assign( m.size(), 0 );
            for( int k = 0; k < N; ++k ) CHECK_EQ( long( a.size( k ) ), d[ k ], "resizeWithoutInitializationOrDestruction" );
            CHECK( long( a.capacity() ) >= m.size() );
            if( N == 1 ) for( long i = 0; i < std::min( old.size(), m.size() ); ++i ) { Ix< N > j {}; j[ 0 ] = i; CHECK_EQ( val( at< N >( a, j ) ), old.v[ i ], "kept value ", i, " after resizeWithoutInitializationOrDestruction" ); }
            refill();
          }
          break;
        case 10:
        {
          // Errors: a negative length, a resize index that is no dimension, a wrong number of dimensions.
          int const kind = s.range( 0, 4 );
          LOG( s, "error kind " << kind );
          Outcome const o = runExpectingError( [&]()
          {
            Ix< N > d = m.dims; d[ s.range( 0, N - 1 ) ] = -1 - long( s.range( 0, 3 ) );
            if( kind == 0 ) resizeTo( a, d );
            else if( kind == 1 ) a.resize( N, d.data() );
            else if( kind == 2 ) a.setSingleParameterResizeIndex( s.boolean() ? N : -1 );
            else if( kind == 3 ) a.resize( N + 1, d.data() );
            else a.resize( INDEX( -1 ) );
          } );
          CHECK( o == Outcome::ERROR_REPORTED, "kind ", kind, ": ", toString( o ) );
          break;
        }
        default:
        {
          // Copies and moves carry the shape, the contents and the resize index.
          LOG( s, "copy and move" );
          A b( a );
          checkArray< N, PERM >( b, m, "copy" );
          CHECK_EQ( b.getSingleParameterResizeIndex(), rIndex );
          A c( std::move( b ) );
          checkArray< N, PERM >( c, m, "move" );
          CHECK_EQ( c.getSingleParameterResizeIndex(), rIndex );
          CHECK_EQ( long( b.size() ), 0L );
          if( s.boolean() ) { b = c; checkArray< N, PERM >( b, m, "copy assignment" ); b.resize( INDEX( 0 ) ); }
        }
      }
      track( "operation" );
      CHECK_EQ( long( a.size() ), m.size(), "size after operation ", op );
      checkArray< N, PERM >( a, m, "operation" );
    }
    if( structural >= 2 ) s.label( "two or more resizes" );
  }
  checkLedger( 0, "the array was destroyed" );
}

using Fn = void ( * )( Src & );
using LvArray::MallocBuffer;
#define DEF( NAME, ... ) static void NAME( Src & s ) { static Fn const f[] = { __VA_ARGS__ }; f[ s.range< int >( 0, sizeof( f ) / sizeof( f[ 0 ] ) - 1 ) ]( s ); }
DEF( one, resizeHistory< Placed, 1, RAJA::PERM_I, int, MallocBuffer >, resizeHistory< Init, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer >, resizeHistory< int, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer >, resizeHistory< Tracked, 1, RAJA::PERM_I, int, MallocBuffer >, resizeHistory< std::string, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer > )
DEF( two, resizeHistory< Placed, 2, RAJA::PERM_IJ, int, MallocBuffer >, resizeHistory< Init, 2, RAJA::PERM_JI, std::ptrdiff_t, MallocBuffer >, resizeHistory< int, 2, RAJA::PERM_IJ, std::ptrdiff_t, MallocBuffer >, resizeHistory< Tracked, 2, RAJA::PERM_JI, int, MallocBuffer >, resizeHistory< std::string, 2, RAJA::PERM_IJ, std::ptrdiff_t, MallocBuffer >, resizeHistory< double, 2, RAJA::PERM_JI, std::ptrdiff_t, MallocBuffer > )
DEF( three, resizeHistory< int, 3, RAJA::PERM_IJK, std::ptrdiff_t, MallocBuffer >, resizeHistory< Tracked, 3, RAJA::PERM_KJI, std::ptrdiff_t, MallocBuffer >, resizeHistory< std::string, 3, RAJA::PERM_JKI, std::ptrdiff_t, MallocBuffer >, resizeHistory< Tracked, 3, RAJA::PERM_IKJ, std::ptrdiff_t, MallocBuffer > )
DEF( four, resizeHistory< Init, 4, RAJA::PERM_KILJ, std::ptrdiff_t, MallocBuffer >, resizeHistory< Tracked, 4, RAJA::PERM_LIKJ, std::ptrdiff_t, MallocBuffer >, resizeHistory< double, 4, RAJA::PERM_JILK, int, MallocBuffer > )
static char const * const rule = "a single-dimension resize changed the length of an array that holds values before and after";
static Registrar r1( "resize.1d", one, 4000, rule, true );
static Registrar r2( "resize.2d", two, 4000, rule, true );
static Registrar r3( "resize.3d", three, 4000, rule, true );
static Registrar r4( "resize.4d", four, 2000, rule, true );
