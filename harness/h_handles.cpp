// C37 views are handles: a copy, a moved or assigned view is the view it came from.
#include "ragged.hpp"
#include "SortedArray.hpp"
#include <tuple>
using namespace pbt;
using namespace lv;

namespace
{
template< typename X > auto addr( X const & x ) { if constexpr( requires { x.data(); } ) return x.data(); else return x.dataIfContiguous(); }

template< typename T, typename PERM >
struct ArrayA
{
  using C = LvArray::Array< T, 2, PERM, std::ptrdiff_t, MallocBuffer >;
  using M = Logical< 2 >;
  using V0 = std::remove_const_t< decltype( std::declval< C & >().toView() ) >;
  using V1 = std::remove_const_t< decltype( std::declval< C & >().toViewConst() ) >;
  using V2 = std::remove_const_t< decltype( std::declval< C & >().toSlice() ) >;
  static constexpr bool convertsToOther = false;
  static constexpr bool hasMiddle = false;
  /// Change the container itself: the views of it have to be made again.
  static void change( Src & s, C & c, M & m ) { make( s, c, m ); }
  static void make( Src & s, C & c, M & m )
  {
    m.dims = genDims< 2 >( s, 5, 20 ); resizeTo( c, m.dims ); m.v.assign( m.size(), 0 );
    forAll< 2 >( m.dims, [&]( Ix< 2 > const & i ) { int const v = s.range( 0, 999 ); m( i ) = v; at< 2 >( c, i ) = mk< T >( v ); } );
    c.setSingleParameterResizeIndex( s.range( 0, 1 ) );
  }
  static V0 v0( C & c ) { return c.toView(); }
  static V1 v1( C & c ) { return s_convert ? V1( c ) : c.toViewConst(); }
  static V2 v2( C & c ) { return c.toSlice(); }
  static V1 v1( V0 const & v ) { return v.toViewConst(); }
  static V2 v2( V0 const & v ) { return v.toSlice(); }
  static V2 v2( V2 const & v ) { return v; }
  static V0 again( V0 const & v ) { return v.toView(); }
  static V1 again( V1 const & v ) { return v.toViewConst(); }
  static void mutate( Src & s, V0 const & v, M & m )
  {
    if( m.size() == 0 ) return;
    if( s.boolean( 0.1 ) ) { int const x = s.range( 0, 999 ); v.template setValues< RAJA::loop_exec >( mk< T >( x ) ); m.v.assign( m.size(), x ); return; }
    Ix< 2 > const i{ s.range( 0l, m.dims[ 0 ] - 1 ), s.range( 0l, m.dims[ 1 ] - 1 ) };
    int const x = s.range( 0, 999 ); m( i ) = x; v( i[ 0 ], i[ 1 ] ) = mk< T >( x );
  }
  static void check( C const & c, M const & m, char const * w ) { checkArray< 2, PERM >( c, m, w ); }
  template< typename V > static void checkView( V const & v, C const & c, M const & m, char const * w )
  {
    if constexpr( std::is_same< V, V2 >::value ) { if( m.size() ) CHECK( &v( 0, 0 ) == &c( 0, 0 ), w, ": another address" ); }
    else CHECK( addr( v ) == addr( c ), w, ": another address" );
    if constexpr( !std::is_same< V, V2 >::value ) { checkArray< 2, PERM >( v, m, w ); CHECK_EQ( v.getSingleParameterResizeIndex(), c.getSingleParameterResizeIndex(), w ); CHECK_EQ( long( v.capacity() ), long( c.capacity() ), w ); }
    else
    {
      CHECK_EQ( long( v.size() ), m.size(), w );
      for( int d = 0; d < 2; ++d ) { CHECK_EQ( long( v.size( d ) ), m.dims[ d ], w ); CHECK_EQ( long( v.stride( d ) ), long( c.strides()[ d ] ), w ); }
      forAll< 2 >( m.dims, [&]( Ix< 2 > const & i ) { CHECK_EQ( val( v( i[ 0 ], i[ 1 ] ) ), m( i ), w ); } );
    }
  }
  static inline bool s_convert = false;
};

template< typename T >
struct NestedA
{
  using C = LvArray::Array< LvArray::Array< T, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer >, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer >;
  using M = std::vector< std::vector< int > >;
  using V0 = std::remove_const_t< decltype( std::declval< C & >().toNestedView() ) >;
  using V1 = std::remove_const_t< decltype( std::declval< C & >().toNestedViewConst() ) >;
  using V2 = std::remove_const_t< decltype( std::declval< C & >().toViewConst() ) >;
  static constexpr bool convertsToOther = false;
  static constexpr bool hasMiddle = false;
  /// Change the container itself: the views of it have to be made again.
  static void change( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 2 );
    if( op == 0 || m.empty() ) { long const n = s.range( 0, 5 ); c.resize( n ); m.resize( n ); return; }
    std::size_t const i = s.range< std::size_t >( 0, m.size() - 1 );
    if( op == 1 ) { c.erase( i ); m.erase( m.begin() + i ); return; }
    int const x = s.range( 0, 999 ); c[ i ].emplace_back( mk< T >( x ) ); m[ i ].push_back( x );
  }
  static void make( Src & s, C & c, M & m )
  {
    m.resize( s.range( 0, 4 ) ); c.resize( m.size() );
    for( std::size_t i = 0; i < m.size(); ++i ) { m[ i ].resize( s.range( 0, 4 ) ); for( int & x : m[ i ] ) { x = s.range( 0, 999 ); c[ i ].emplace_back( mk< T >( x ) ); } }
  }
  static V0 v0( C & c ) { return c.toNestedView(); }
  static V1 v1( C & c ) { return c.toNestedViewConst(); }
  static V2 v2( C & c ) { return c.toViewConst(); }
  static V1 v1( V0 const & v ) { return v.toNestedViewConst(); }
  static V2 v2( V2 const & v ) { return v; }
  static V0 again( V0 const & v ) { return v.toView(); }
  static V1 again( V1 const & v ) { return v.toViewConst(); }
  static void mutate( Src & s, V0 const & v, M & m )
  {
    if( m.empty() ) return;
    std::size_t const i = s.range< std::size_t >( 0, m.size() - 1 ); if( m[ i ].empty() ) return;
    std::size_t const j = s.range< std::size_t >( 0, m[ i ].size() - 1 );
    int const x = s.range( 0, 999 ); m[ i ][ j ] = x; v[ i ][ j ] = mk< T >( x );
  }
  static void check( C const & c, M const & m, char const * w ) { checkView( c, c, m, w ); }
  template< typename V > static void checkView( V const & v, C const & c, M const & m, char const * w )
  {
    CHECK( ( void const * ) addr( v ) == ( void const * ) addr( c ), w );
    CHECK_EQ( long( v.size() ), long( m.size() ), w );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      CHECK_EQ( long( v[ i ].size() ), long( m[ i ].size() ), w, " inner ", i );
      CHECK( addr( v[ i ] ) == addr( c[ i ] ), w, " inner ", i );
      for( std::size_t j = 0; j < m[ i ].size(); ++j ) CHECK_EQ( val( v[ i ][ j ] ), m[ i ][ j ], w );
    }
  }
  static inline bool s_convert = false;
};

template< typename T >
struct SortedA
{
  using C = LvArray::SortedArray< T, std::ptrdiff_t, MallocBuffer >;
  using M = RefSet< T >;
  using V0 = std::remove_const_t< decltype( std::declval< C & >().toView() ) >;
  using V1 = std::remove_const_t< decltype( std::declval< C & >().toViewConst() ) >;
  using V2 = std::remove_const_t< decltype( std::declval< C & >().toSlice() ) >;
  static constexpr bool convertsToOther = false;
  static constexpr bool hasMiddle = false;
  /// Change the container itself: the views of it have to be made again.
  static void change( Src & s, C & c, M & m )
  {
    int const x = s.range( 0, 199 ), op = s.range( 0, 3 );
    if( op == 0 ) { c.clear(); m.clear(); }
    else if( op == 1 && !m.empty() ) { int const y = *m.begin(); c.remove( mk< T >( y ) ); m.erase( y ); }
    else { c.insert( mk< T >( x ) ); m.insert( x ); }
  }
  static void make( Src & s, C & c, M & m ) { for( int x : batchFor( s, m, 200, 10 ) ) { c.insert( mk< T >( x ) ); m.insert( x ); } }
  static V0 v0( C & c ) { return c.toView(); }
  static V1 v1( C & c ) { return c.toViewConst(); }
  static V2 v2( C & c ) { return c.toSlice(); }
  static V2 v2( V0 const & v ) { return v.toSlice(); }
  static V2 v2( V2 const & v ) { return v; }
  static V1 v1( V0 const & v ) { return v.toViewConst(); }
  static V0 again( V0 const & v ) { return v.toView(); }
  static void mutate( Src &, V0 const &, M & ) {}
  static void check( C const & c, M const & m, char const * w ) { checkView( c, c, m, w ); }
  template< typename V > static void checkView( V const & v, C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( v.size() ), long( m.size() ), w );
    CHECK_EQ( v.size() == 0, m.empty(), w );
    if constexpr( std::is_same< V, V2 >::value ) CHECK( addr( v ) == addr( c ), w );
    else
    {
      CHECK( addr( v ) == addr( c ), w, ": another address" ); CHECK_EQ( v.empty(), m.empty(), w );
      for( int x : { 0, 50, 100, 199 } ) CHECK_EQ( v.contains( mk< T >( x ) ), m.count( x ) != 0, w );
      CHECK_EQ( long( v.end() - v.begin() ), long( m.size() ), w );
    }
    long i = 0; for( int x : m ) { CHECK_EQ( val( v[ i ] ), x, w ); ++i; }
  }
  static inline bool s_convert = false;
};

template< typename T >
struct AoAA
{
  using C = LvArray::ArrayOfArrays< T, std::ptrdiff_t, MallocBuffer >;
  using M = std::vector< std::vector< int > >;
  using V0 = std::remove_const_t< decltype( std::declval< C & >().toView() ) >;
  using V1 = std::remove_const_t< decltype( std::declval< C & >().toViewConst() ) >;
  using V2 = std::remove_const_t< decltype( std::declval< C & >().toViewConstSizes() ) >;
  static constexpr bool convertsToOther = true;
  static constexpr bool hasMiddle = true;
  /// Change the container itself: the views of it have to be made again.
  static void change( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 4 ), x = s.range( 0, 999 );
    if( op == 0 ) c.reserve( s.range( 0, 12 ) );
    else if( op == 1 || m.empty() ) { long const n = s.range( 0, 6 ); c.resize( n, s.range( 0, 3 ) ); m.resize( n ); }
    else
    {
      std::size_t const i = s.range< std::size_t >( 0, m.size() - 1 );
      if( op == 2 ) { c.eraseArray( i ); m.erase( m.begin() + i ); }
      else { c.emplaceBack( i, mk< T >( x ) ); m[ i ].push_back( x ); }
    }
  }
  static void make( Src & s, C & c, M & m )
  {
    m.resize( s.range( 0, 5 ) ); c.resize( m.size() );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      c.setCapacityOfArray( i, s.range( 0, 4 ) );
      m[ i ].resize( s.range( 0, 4 ) ); for( int & x : m[ i ] ) { x = s.range( 0, 999 ); c.emplaceBack( i, mk< T >( x ) ); }
    }
  }
  static V0 v0( C & c ) { return c.toView(); }
  static V1 v1( C & c ) { return c.toViewConst(); }
  static V2 v2( C & c ) { return c.toViewConstSizes(); }
  static V1 v1( V0 const & v ) { return v.toViewConst(); }
  static V1 v1( V2 const & v ) { return v.toViewConst(); }
  static V2 v2( V0 const & v ) { return v.toViewConstSizes(); }
  static V2 v2( V2 const & v ) { return v.toViewConstSizes(); }
  static V0 again( V0 const & v ) { return v.toView(); }
  static V1 again( V1 const & v ) { return v.toViewConst(); }
  static void mutate( Src & s, V0 const & v, M & m )
  {
    if( m.empty() ) return;
    std::size_t const i = s.range< std::size_t >( 0, m.size() - 1 );
    int const x = s.range( 0, 999 ), op = s.range( 0, 2 );
    if( op == 0 ) { if( long( m[ i ].size() ) < long( v.capacityOfArray( i ) ) ) { v.emplaceBack( i, mk< T >( x ) ); m[ i ].push_back( x ); } }
    else if( m[ i ].empty() ) return;
    else { std::size_t const j = s.range< std::size_t >( 0, m[ i ].size() - 1 ); if( op == 1 ) { v( i, j ) = mk< T >( x ); m[ i ][ j ] = x; } else { v.eraseFromArray( i, j ); m[ i ].erase( m[ i ].begin() + j ); } }
  }
  static void mutate( Src & s, V2 const & v, M & m )
  {
    if( m.empty() ) return;
    std::size_t const i = s.range< std::size_t >( 0, m.size() - 1 ); if( m[ i ].empty() ) return;
    std::size_t const j = s.range< std::size_t >( 0, m[ i ].size() - 1 ); int const x = s.range( 0, 999 ); v[ i ][ j ] = mk< T >( x ); m[ i ][ j ] = x;
  }
  static void check( C const & c, M const & m, char const * w ) { checkView( c, c, m, w ); }
  template< typename V > static void checkView( V const & v, C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( v.size() ), long( m.size() ), w );
    CHECK_EQ( long( v.capacity() ), long( c.capacity() ), w ); CHECK_EQ( long( v.valueCapacity() ), long( c.valueCapacity() ), w );
    if constexpr( !std::is_same< V, C >::value ) CHECK( v.getOffsets() == c.toViewConst().getOffsets() && v.getSizes() == c.toViewConst().getSizes() && v.getValues() == c.toViewConst().getValues(), w, ": another address" );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      CHECK_EQ( long( v.sizeOfArray( i ) ), long( m[ i ].size() ), w ); CHECK_EQ( long( v.capacityOfArray( i ) ), long( c.capacityOfArray( i ) ), w );
      for( std::size_t j = 0; j < m[ i ].size(); ++j ) CHECK_EQ( val( v( i, j ) ), m[ i ][ j ], w );
    }
  }
  static inline bool s_convert = false;
};

template< typename T >
struct AoSA
{
  using C = LvArray::ArrayOfSets< T, std::ptrdiff_t, MallocBuffer >;
  using M = std::vector< RefSet< T > >;
  using V0 = std::remove_const_t< decltype( std::declval< C & >().toView() ) >;
  using V1 = std::remove_const_t< decltype( std::declval< C & >().toViewConst() ) >;
  using V2 = std::remove_const_t< decltype( std::declval< C & >().toArrayOfArraysView() ) >;
  static constexpr bool convertsToOther = true;
  static constexpr bool hasMiddle = false;
  /// Change the container itself: the views of it have to be made again.
  static void change( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 4 ), x = s.range( 0, 199 );
    if( op == 0 ) c.reserve( s.range( 0, 12 ) );
    else if( op == 1 || m.empty() ) { long const n = s.range( 0, 6 ); c.resize( n, s.range( 0, 3 ) ); m.resize( n ); }
    else
    {
      std::size_t const i = s.range< std::size_t >( 0, m.size() - 1 );
      if( op == 2 ) { c.eraseSet( i ); m.erase( m.begin() + i ); }
      else { c.insertIntoSet( i, mk< T >( x ) ); m[ i ].insert( x ); }
    }
  }
  static void make( Src & s, C & c, M & m )
  {
    m.resize( s.range( 0, 5 ) ); c.resize( m.size() );
    for( std::size_t i = 0; i < m.size(); ++i ) { c.setCapacityOfSet( i, s.range( 0, 4 ) ); for( int k = s.range( 0, 4 ); k > 0; --k ) { int const x = s.range( 0, 199 ); c.insertIntoSet( i, mk< T >( x ) ); m[ i ].insert( x ); } }
  }
  static V0 v0( C & c ) { return c.toView(); }
  static V1 v1( C & c ) { return c.toViewConst(); }
  static V2 v2( C & c ) { return c.toArrayOfArraysView(); }
  static V1 v1( V0 const & v ) { return v.toViewConst(); }
  static V2 v2( V0 const & v ) { return v.toArrayOfArraysView(); }
  static V2 v2( V1 const & v ) { return v.toArrayOfArraysView(); }
  static V2 v2( V2 const & v ) { return v; }
  static V0 again( V0 const & v ) { return v.toView(); }
  static V1 again( V1 const & v ) { return v.toViewConst(); }
  static void mutate( Src & s, V0 const & v, M & m )
  {
    if( m.empty() ) return;
    std::size_t const i = s.range< std::size_t >( 0, m.size() - 1 ); int const x = s.range( 0, 199 );
    if( s.boolean() ) { if( m[ i ].count( x ) || long( m[ i ].size() ) < long( v.capacityOfSet( i ) ) ) CHECK_EQ( v.insertIntoSet( i, mk< T >( x ) ), m[ i ].insert( x ).second ); }
    else if( !m[ i ].empty() ) { auto it = m[ i ].begin(); std::advance( it, s.range< long >( 0, m[ i ].size() - 1 ) ); int const y = *it; m[ i ].erase( it ); CHECK( v.removeFromSet( i, mk< T >( y ) ), "not removed" ); }
  }
  static void check( C const & c, M const & m, char const * w ) { checkView( c, c, m, w ); }
  template< typename V > static void checkView( V const & v, C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( v.size() ), long( m.size() ), w );
    CHECK_EQ( long( v.capacity() ), long( c.capacity() ), w );
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      auto const & row = v[ i ];
      CHECK( addr( row ) == addr( c[ i ] ), w, ": another address" );
      CHECK_EQ( long( row.size() ), long( m[ i ].size() ), w );
      long j = 0; for( int x : m[ i ] ) CHECK_EQ( val( row[ j++ ] ), x, w );
      if constexpr( !std::is_same< V, V2 >::value ) { CHECK_EQ( long( v.sizeOfSet( i ) ), long( m[ i ].size() ), w ); CHECK_EQ( long( v.capacityOfSet( i ) ), long( c.capacityOfSet( i ) ), w ); CHECK_EQ( v.contains( i, mk< T >( 77 ) ), m[ i ].count( 77 ) != 0, w ); }
    }
  }
  static inline bool s_convert = false;
};

struct SparsityA
{
  using C = LvArray::SparsityPattern< int, std::ptrdiff_t, MallocBuffer >;
  struct M { long nCols = 0; std::vector< std::set< int > > rows; };
  using V0 = std::remove_const_t< decltype( std::declval< C & >().toView() ) >;
  using V1 = std::remove_const_t< decltype( std::declval< C & >().toViewConst() ) >;
  using V2 = V1;
  static constexpr bool convertsToOther = true;
  static constexpr bool hasMiddle = false;
  /// Change the container itself: the views of it have to be made again.
  static void change( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 4 );
    if( op == 0 ) { int const how = s.range( 0, 2 ); if( how == 0 ) c.reserveNonZeros( s.range( 0, 40 ) ); else if( how == 1 ) c.reserveRows( s.range( 0, 12 ) ); else c.compress(); }
    else if( op == 1 || m.rows.empty() ) { m.nCols += s.range( 0, 2 ); long const n = s.range( 0, 6 ); c.resize( n, m.nCols, s.range( 0, 3 ) ); m.rows.resize( n ); }
    else if( op == 2 ) { c.appendRow( s.range( 0, 3 ) ); m.rows.emplace_back(); }
    else { std::size_t const i = s.range< std::size_t >( 0, m.rows.size() - 1 ); int const x = s.range< int >( 0, m.nCols - 1 ); c.insertNonZero( i, x ); m.rows[ i ].insert( x ); }
  }
  static void make( Src & s, C & c, M & m )
  {
    m.rows.resize( s.range( 0, 5 ) ); m.nCols = s.range( 1, 9 ); c.resize( m.rows.size(), m.nCols, s.range( 0, 4 ) );
    for( std::size_t i = 0; i < m.rows.size(); ++i ) for( int k = s.range( 0, 4 ); k > 0; --k ) { int const x = s.range< int >( 0, m.nCols - 1 ); c.insertNonZero( i, x ); m.rows[ i ].insert( x ); }
  }
  static V0 v0( C & c ) { return c.toView(); }
  static V1 v1( C & c ) { return c.toViewConst(); }
  static V2 v2( C & c ) { return c.toViewConst(); }
  static V1 v1( V0 const & v ) { return v.toViewConst(); }
  static V2 v2( V0 const & v ) { return v.toViewConst(); }
  static V2 v2( V2 const & v ) { return v.toViewConst(); }
  static V0 again( V0 const & v ) { return v.toView(); }
  static void mutate( Src & s, V0 const & v, M & m )
  {
    if( m.rows.empty() ) return;
    std::size_t const i = s.range< std::size_t >( 0, m.rows.size() - 1 ); int const x = s.range< int >( 0, m.nCols - 1 );
    if( s.boolean() ) { if( m.rows[ i ].count( x ) || long( m.rows[ i ].size() ) < long( v.nonZeroCapacity( i ) ) ) CHECK_EQ( v.insertNonZero( i, x ), m.rows[ i ].insert( x ).second ); }
    else CHECK_EQ( v.removeNonZero( i, x ), m.rows[ i ].erase( x ) != 0 );
  }
  static void check( C const & c, M const & m, char const * w ) { checkView( c, c, m, w ); }
  template< typename V > static void checkView( V const & v, C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( v.numRows() ), long( m.rows.size() ), w ); CHECK_EQ( long( v.numColumns() ), m.nCols, w, " numColumns" );
    if constexpr( !std::is_same< V, C >::value ) CHECK( v.getOffsets() == c.toViewConst().getOffsets(), w, ": another address" );
    long nnz = 0;
    for( std::size_t i = 0; i < m.rows.size(); ++i )
    {
      CHECK_EQ( long( v.numNonZeros( i ) ), long( m.rows[ i ].size() ), w ); nnz += m.rows[ i ].size();
      CHECK( addr( v.getColumns( i ) ) == addr( c.getColumns( i ) ), w );
      CHECK_EQ( long( v.nonZeroCapacity( i ) ), long( c.nonZeroCapacity( i ) ), w );
      long j = 0; for( int x : m.rows[ i ] ) CHECK_EQ( int( v.getColumns( i )[ j++ ] ), x, w );
      for( int x = 0; x < m.nCols; ++x ) CHECK_EQ( v.empty( i, x ), m.rows[ i ].count( x ) == 0, w );
    }
    CHECK_EQ( long( v.numNonZeros() ), nnz, w );
  }
  static inline bool s_convert = false;
};

template< typename T >
struct CrsA
{
  using C = LvArray::CRSMatrix< T, int, std::ptrdiff_t, MallocBuffer >;
  struct M { long nCols = 0; std::vector< RefRow > rows; };
  using V0 = std::remove_const_t< decltype( std::declval< C & >().toView() ) >;
  using V1 = std::remove_const_t< decltype( std::declval< C & >().toViewConst() ) >;
  using V2 = std::remove_const_t< decltype( std::declval< C & >().toViewConstSizes() ) >;
  static constexpr bool convertsToOther = true;
  static constexpr bool hasMiddle = true;
  /// Change the container itself: the views of it have to be made again.
  static void change( Src & s, C & c, M & m )
  {
    int const op = s.range( 0, 4 ), e = s.range( 0, 999 );
    if( op == 0 ) { if( s.boolean() ) c.reserveNonZeros( s.range( 0, 40 ) ); else c.compress(); }
    else if( op == 1 || m.rows.empty() ) { m.nCols += s.range( 0, 2 ); long const n = s.range( 0, 6 ); c.resize( n, m.nCols, s.range( 0, 3 ) ); m.rows.resize( n ); }
    else { std::size_t const i = s.range< std::size_t >( 0, m.rows.size() - 1 ); int const x = s.range< int >( 0, m.nCols - 1 ); c.insertNonZero( i, x, mk< T >( e ) ); m.rows[ i ].emplace( x, e ); }
  }
  static void make( Src & s, C & c, M & m )
  {
    m.rows.resize( s.range( 0, 5 ) ); m.nCols = s.range( 1, 9 ); c.resize( m.rows.size(), m.nCols, s.range( 0, 4 ) );
    for( std::size_t i = 0; i < m.rows.size(); ++i ) for( int k = s.range( 0, 4 ); k > 0; --k ) { int const x = s.range< int >( 0, m.nCols - 1 ), e = s.range( 0, 999 ); c.insertNonZero( i, x, mk< T >( e ) ); m.rows[ i ].emplace( x, e ); }
  }
  static V0 v0( C & c ) { return c.toView(); }
  static V1 v1( C & c ) { return c.toViewConst(); }
  static V2 v2( C & c ) { return c.toViewConstSizes(); }
  static V1 v1( V0 const & v ) { return v.toViewConst(); }
  static V1 v1( V2 const & v ) { return v.toViewConst(); }
  static V2 v2( V0 const & v ) { return v.toViewConstSizes(); }
  static V2 v2( V2 const & v ) { return v.toViewConstSizes(); }
  static V0 again( V0 const & v ) { return v.toView(); }
  static void mutate( Src & s, V0 const & v, M & m )
  {
    if( m.rows.empty() ) return;
    std::size_t const i = s.range< std::size_t >( 0, m.rows.size() - 1 ); int const x = s.range< int >( 0, m.nCols - 1 ), e = s.range( 0, 999 );
    if( s.boolean() ) { if( m.rows[ i ].count( x ) || long( m.rows[ i ].size() ) < long( v.nonZeroCapacity( i ) ) ) CHECK_EQ( v.insertNonZero( i, x, mk< T >( e ) ), m.rows[ i ].emplace( x, e ).second ); }
    else CHECK_EQ( v.removeNonZero( i, x ), m.rows[ i ].erase( x ) != 0 );
  }
  static void mutate( Src & s, V2 const & v, M & m )
  {
    if( m.rows.empty() ) return;
    std::size_t const i = s.range< std::size_t >( 0, m.rows.size() - 1 ); int const e = s.range( 0, 999 );
    long j = 0; for( auto & p : m.rows[ i ] ) { if( s.boolean() ) { v.getEntries( i )[ j ] = mk< T >( e ); p.second = e; } ++j; }
  }
  static void check( C const & c, M const & m, char const * w ) { checkView( c, c, m, w ); }
  template< typename V > static void checkView( V const & v, C const & c, M const & m, char const * w )
  {
    CHECK_EQ( long( v.numRows() ), long( m.rows.size() ), w ); CHECK_EQ( long( v.numColumns() ), m.nCols, w, " numColumns" );
    checkPattern( v, c, m, w );
    auto const p = v.toSparsityPatternView();
    CHECK_EQ( long( p.numRows() ), long( m.rows.size() ), w, " pattern" ); CHECK_EQ( long( p.numColumns() ), m.nCols, w, " pattern" );
    checkPattern( p, c, m, w );
    for( std::size_t i = 0; i < m.rows.size(); ++i )
    {
      CHECK( addr( v.getEntries( i ) ) == addr( c.getEntries( i ) ), w );
      long j = 0; for( auto const & x : m.rows[ i ] ) CHECK_EQ( val( v.getEntries( i )[ j++ ] ), x.second, w );
    }
  }
  template< typename V > static void checkPattern( V const & v, C const & c, M const & m, char const * w )
  {
    long nnz = 0;
    for( std::size_t i = 0; i < m.rows.size(); ++i )
    {
      CHECK_EQ( long( v.numNonZeros( i ) ), long( m.rows[ i ].size() ), w ); nnz += m.rows[ i ].size();
      CHECK( addr( v.getColumns( i ) ) == addr( c.getColumns( i ) ), w );
      long j = 0; for( auto const & x : m.rows[ i ] ) CHECK_EQ( long( v.getColumns( i )[ j++ ] ), x.first, w );
    }
    CHECK_EQ( long( v.numNonZeros() ), nnz, w );
  }
  static inline bool s_convert = false;
};

/// A variable that holds a view; from is the container it is of, -1 before it was assigned or after it was moved from.
template< typename V > struct Slot { std::unique_ptr< V > v; int from = -1; };
constexpr int NC = 3, NS = 3;

/// One step on the variables of one view type. @return what was done.
template< typename V >
char const * step( Src & s, Slot< V > * slots )
{
  int const a = s.range( 0, NS - 1 ), b = s.range( 0, NS - 1 );
  Slot< V > & to = slots[ a ]; Slot< V > & from = slots[ b ];
  int const op = s.range( 0, 6 );
  LOG( s, "  variable " << a << " from variable " << b << " operation " << op );
  if( op == 0 ) { if constexpr( std::is_default_constructible< V >::value ) { to.v.reset( new V ); to.from = -1; return "default construction"; } }
  if( op == 1 ) { to.v.reset(); to.from = -1; return "destruction"; }
  if( from.from < 0 ) return nullptr;
  if( op == 2 ) { if( a == b ) return nullptr; to.v.reset( new V( *from.v ) ); to.from = from.from; return "copy construction"; }
  if( op == 3 ) { if( a == b ) return nullptr; to.v.reset( new V( std::move( *from.v ) ) ); to.from = from.from; from.from = -1; return "move construction"; }
  if( op == 4 ) { if constexpr( std::is_copy_assignable< V >::value ) { if( !to.v ) return nullptr; *to.v = *from.v; to.from = from.from; return a == b ? "self assignment" : "copy assignment"; } }
  if( op == 5 ) { if constexpr( std::is_move_assignable< V >::value ) { if( !to.v || a == b ) return nullptr; *to.v = std::move( *from.v ); to.from = from.from; from.from = -1; return "move assignment"; } }
  if( op == 6 )
  {
    // As in a kernel: captured by a lambda that is itself copied, then given back.
    V const & view = *from.v;
    auto const kernel = [=]() { return view; };
    auto const copy = kernel;
    V result = copy();
    if( a == b ) return nullptr;
    to.v.reset( new V( result ) ); to.from = from.from; return "capture";
  }
  return nullptr;
}

template< typename A >
void handles( Src & s )
{
  using C = typename A::C; using M = typename A::M;
  C c[ NC ]; M m[ NC ];
  for( int i = 0; i < NC; ++i ) A::make( s, c[ i ], m[ i ] );
  A::s_convert = s.boolean( 0.3 );
  {
    Slot< typename A::V0 > s0[ NS ]; Slot< typename A::V1 > s1[ NS ]; Slot< typename A::V2 > s2[ NS ];
    int n = 0, assigned = 0;
    while( s.more( n, 60, 14 ) )
    {
      Span sp( s ); ++n;
      char const * done = nullptr;
      int const op = s.range( 0, 9 );
      int const k = s.range( 0, NC - 1 ), a = s.range( 0, NS - 1 ), b = s.range( 0, NS - 1 );
      LOG( s, "step " << op << " container " << k << " variables " << a << " " << b );
      if( op == 0 ) { s0[ a ].v.reset( new typename A::V0( A::v0( c[ k ] ) ) ); s0[ a ].from = k; done = "view of the container"; }
      else if( op == 1 ) { s1[ a ].v.reset( new typename A::V1( A::v1( c[ k ] ) ) ); s1[ a ].from = k; done = "const view of the container"; }
      else if( op == 2 ) { s2[ a ].v.reset( new typename A::V2( A::v2( c[ k ] ) ) ); s2[ a ].from = k; done = "other view of the container"; }
      else if( op == 3 ) { done = step( s, s0 ); assigned += done != nullptr; }
      else if( op == 4 ) { done = step( s, s1 ); assigned += done != nullptr; }
      else if( op == 5 ) { done = step( s, s2 ); assigned += done != nullptr; }
      else if( op == 6 )
      {
        // Conversion of a view.
        int const how = s.range( 0, 2 );
        if( s0[ b ].from < 0 ) continue;
        if( how == 0 ) { s1[ a ].v.reset( new typename A::V1( A::v1( *s0[ b ].v ) ) ); s1[ a ].from = s0[ b ].from; done = "conversion to const"; }
        else if( how == 1 )
        {
          // A slice refers to the sizes and strides in the view it was made from, it can't outlive it.
          if constexpr( A::convertsToOther )
          { s2[ a ].v.reset( new typename A::V2( A::v2( *s0[ b ].v ) ) ); s2[ a ].from = s0[ b ].from; done = "conversion to the other view"; }
        }
        else { typename A::V0 const again = A::again( *s0[ b ].v ); if( a != b ) { s0[ a ].v.reset( new typename A::V0( again ) ); s0[ a ].from = s0[ b ].from; done = "view of a view"; } }
        if constexpr( A::hasMiddle ) if( how == 0 && s2[ b ].from >= 0 ) { s1[ a ].v.reset( new typename A::V1( A::v1( *s2[ b ].v ) ) ); s1[ a ].from = s2[ b ].from; done = "conversion of the other view to const"; }
      }
      else if( op == 9 )
      {
        // What can be done to the views of it now is to assign them again or to destroy them.
        A::change( s, c[ k ], m[ k ] );
        for( auto & x : s0 ) if( x.from == k ) x.from = -1;
        for( auto & x : s1 ) if( x.from == k ) x.from = -1;
        for( auto & x : s2 ) if( x.from == k ) x.from = -1;
        if( s.boolean( 0.6 ) ) { s0[ b ].v.reset( new typename A::V0( A::v0( c[ k ] ) ) ); s0[ b ].from = k; s1[ b ].v.reset( new typename A::V1( A::v1( c[ k ] ) ) ); s1[ b ].from = k; }
        done = "a change of the container";
      }
      else if( op == 7 ) { if( s0[ a ].from >= 0 ) { A::mutate( s, *s0[ a ].v, m[ s0[ a ].from ] ); done = "a change through a view"; } }
      else if constexpr( A::hasMiddle ) { if( s2[ a ].from >= 0 ) { A::mutate( s, *s2[ a ].v, m[ s2[ a ].from ] ); done = "a change through the other view"; } }
      if( done == nullptr ) continue;
      s.label( done );
      for( int i = 0; i < NC; ++i ) A::check( c[ i ], m[ i ], done );
      for( auto & x : s0 ) if( x.from >= 0 ) A::checkView( *x.v, c[ x.from ], m[ x.from ], done );
      for( auto & x : s1 ) if( x.from >= 0 ) A::checkView( *x.v, c[ x.from ], m[ x.from ], done );
      for( auto & x : s2 ) if( x.from >= 0 ) A::checkView( *x.v, c[ x.from ], m[ x.from ], done );
    }
    if( assigned >= 2 ) s.nontrivial();
  }
  for( int i = 0; i < NC; ++i ) A::check( c[ i ], m[ i ], "all views are gone" );
}
char const * const rule = "at least two copies, moves or assignments of views were made";
Registrar r1( "handles.array.int", handles< ArrayA< int, RAJA::PERM_IJ > >, 3000, rule, true );
Registrar r2( "handles.array.string", handles< ArrayA< std::string, RAJA::PERM_JI > >, 1500, rule, true );
Registrar r3( "handles.nested", handles< NestedA< int > >, 2000, rule, true );
Registrar r4( "handles.sorted.int", handles< SortedA< int > >, 3000, rule, true );
Registrar r5( "handles.sorted.string", handles< SortedA< std::string > >, 1500, rule, true );
Registrar r6( "handles.aoa.int", handles< AoAA< int > >, 3000, rule, true );
Registrar r7( "handles.aoa.string", handles< AoAA< std::string > >, 1500, rule, true );
Registrar r8( "handles.aos.int", handles< AoSA< int > >, 3000, rule, true );
Registrar r9( "handles.sparsity", handles< SparsityA >, 3000, rule, true );
Registrar r10( "handles.crs.double", handles< CrsA< double > >, 3000, rule, true );
Registrar r11( "handles.crs.string", handles< CrsA< std::string > >, 1500, rule, true );
}
