// Reference models of the ragged containers.
#pragma once
#include "arr.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include <list>
#include <optional>

namespace lv
{
using LvArray::MallocBuffer;
template< typename T > struct Less { bool operator()( int a, int b ) const { if constexpr( std::is_same< T, std::string >::value ) return mk< T >( a ) < mk< T >( b ); else return a < b; } };
template< typename T > using RefSet = std::set< int, Less< T > >;
using RefRow = std::map< long, int >;

/// Sorted unique values: some present, some absent, some beyond the largest.
template< typename SET >
std::vector< int > batchFor( pbt::Src & s, SET const & base, int domain, std::size_t maxLen )
{
  SET b;
  int const k = static_cast< int >( s.length( maxLen ) );
  int const style = s.range( 0, 3 );
  std::vector< int > const have( base.begin(), base.end() );
  for( int i = 0; i < k; ++i )
  {
    if( style == 1 && !have.empty() ) b.insert( have[ s.range< int >( 0, have.size() - 1 ) ] );
    else b.insert( s.range( 0, domain - 1 ) );
  }
  return std::vector< int >( b.begin(), b.end() );
}

/// Present values to a call as different kinds of range; they must not be modified.
template< typename T, typename F >
void withRange( pbt::Src & s, std::vector< int > const & v, F && f )
{
  int const how = s.range( 0, 1 );
  LOG( s, "  " << v.size() << " values as container " << how );
  if( how == 0 ) { std::vector< T > c; for( int x : v ) c.push_back( mk< T >( x ) ); f( c.data(), c.data() + c.size() ); for( std::size_t i = 0; i < v.size(); ++i ) CHECK_EQ( val( c[ i ] ), v[ i ], "the argument was modified" ); }
  else { std::list< T > c; for( int x : v ) c.push_back( mk< T >( x ) ); f( c.begin(), c.end() ); std::size_t i = 0; for( auto const & x : c ) CHECK_EQ( val( x ), v[ i++ ], "the argument was modified" ); }
}

/// Common layout of every ragged container: offsets increase, rows have capacity, rows don't overlap.
template< typename VIEW >
void checkLayout( VIEW const & v, long nRows, long valueCapacity )
{
  long prevEnd = 0;
  for( long i = 0; i < nRows; ++i )
  {
    long const off = v.getOffsets()[ i ];
    CHECK( off >= prevEnd, "row ", i, " starts at ", off, " before the previous row's end ", prevEnd );
    prevEnd = off + v.getSizes()[ i ];
    CHECK( prevEnd <= long( v.getOffsets()[ i + 1 ] ), "row ", i, " extends past its capacity" );
  }
  if( nRows > 0 ) CHECK( long( v.getOffsets()[ nRows ] ) <= valueCapacity, "the rows extend past the values" );
}
} // namespace lv
