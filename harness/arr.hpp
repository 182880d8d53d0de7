// Helpers for the harnesses of the multi dimensional arrays: access by an index array, and a logical reference model.
#pragma once
#include "lv.hpp"
#include "elem.hpp"
#include "RAJA/RAJA.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "sliceHelpers.hpp"
#include <array>

namespace lv
{
template< int N > using Ix = std::array< long, N >;

template< int N > std::string str( Ix< N > const & i )
{
  std::ostringstream o; o << "{";
  for( int k = 0; k < N; ++k ) o << ( k ? "," : "" ) << i[ k ];
  o << "}"; return o.str();
}
template< int N > long prod( Ix< N > const & d ) { long p = 1; for( long x : d ) p *= x; return p; }

/// Row major position of i in dims.
template< int N > long rowMajor( Ix< N > const & dims, Ix< N > const & i )
{ long p = 0; for( int k = 0; k < N; ++k ) p = p * dims[ k ] + i[ k ]; return p; }

/// Visit every multi index in row major order.
template< int N, typename F > void forAll( Ix< N > const & dims, F && f )
{
  long const n = prod< N >( dims );
  Ix< N > i {};
  for( long c = 0; c < n; ++c )
  {
    f( static_cast< Ix< N > const & >( i ) );
    for( int k = N - 1; k >= 0; --k ) { if( ++i[ k ] < dims[ k ] ) break; i[ k ] = 0; }
  }
}

namespace detail
{
template< typename A, int N, std::size_t... K > decltype( auto ) call( A const & a, Ix< N > const & i, std::index_sequence< K... > ) { return a( i[ K ] ... ); }
template< typename A, int N, std::size_t... K > auto linear( A const & a, Ix< N > const & i, std::index_sequence< K... > ) { return a.linearIndex( i[ K ] ... ); }
}
/// a( i0, i1, ... )
template< int N, typename A > decltype( auto ) at( A const & a, Ix< N > const & i ) { return detail::call< A, N >( a, i, std::make_index_sequence< N >() ); }
template< int N, typename A > auto linear( A const & a, Ix< N > const & i ) { return detail::linear< A, N >( a, i, std::make_index_sequence< N >() ); }
/// a[ i0 ][ i1 ]...
template< int N, int D = 0, typename A > decltype( auto ) chain( A const & a, Ix< N > const & i )
{
  if constexpr( D == N - 1 ) return a[ i[ D ] ];
  else { auto const & inner = a[ i[ D ] ]; return chain< N, D + 1 >( inner, i ); }
}
/// f( slice with the first K indices fixed ) for every K < N.
template< int N, int D = 0, typename A, typename F > void forPrefixes( A const & a, Ix< N > const & i, F && f )
{
  f( std::integral_constant< int, D >(), a );
  if constexpr( D + 1 < N ) { auto const & inner = a[ i[ D ] ]; forPrefixes< N, D + 1 >( inner, i, f ); }
}
template< int N, int D > Ix< N - D > tail( Ix< N > const & i ) { Ix< N - D > r {}; for( int k = D; k < N; ++k ) r[ k - D ] = i[ k ]; return r; }

/// Strides the permutation asks for: the last permuted dimension has unit stride, each earlier one the product of the later lengths.
template< int N, typename PERM > Ix< N > wantStrides( Ix< N > const & dims )
{
  auto const perm = LvArray::typeManipulation::asArray( PERM {} );
  Ix< N > s {};
  long p = 1;
  for( int k = N - 1; k >= 0; --k ) { s[ perm[ k ] ] = p; p *= dims[ perm[ k ] ]; }
  return s;
}

/// Random dimensions with a bounded product.
template< int N > Ix< N > genDims( pbt::Src & s, long maxLen, long maxTotal )
{
  Ix< N > d {};
  long total = 1;
  for( int k = 0; k < N; ++k )
  {
    long const hi = std::max( 1L, std::min( maxLen, maxTotal / std::max( 1L, total ) ) );
    d[ k ] = s.weighted( { 8, 1 } ) ? 0 : s.range< long >( 0, hi );
    if( d[ k ] == 0 && !s.boolean( 0.3 ) ) d[ k ] = std::min( 2L, hi );
    total *= std::max( 1L, d[ k ] );
  }
  return d;
}

/// Logical contents of an array.
template< int N > struct Logical
{
  Ix< N > dims {};
  std::vector< int > v;
  long size() const { return prod< N >( dims ); }
  int & operator()( Ix< N > const & i ) { return v[ rowMajor< N >( dims, i ) ]; }
  int operator()( Ix< N > const & i ) const { return v[ rowMajor< N >( dims, i ) ]; }
};

template< typename A, int N, std::size_t... K > void resizeTo( A & a, Ix< N > const & d, std::index_sequence< K... > ) { a.resize( d[ K ] ... ); }
template< typename A, std::size_t N > void resizeTo( A & a, std::array< long, N > const & d ) { resizeTo< A, int( N ) >( a, d, std::make_index_sequence< N >() ); }

/// Check the dims, strides and contents of an array, view or slice against the model.
template< int N, typename PERM, typename A > void checkArray( A const & a, Logical< N > const & m, char const * where )
{
  Ix< N > const want = wantStrides< N, PERM >( m.dims );
  CHECK_EQ( long( a.size() ), m.size(), where );
  CHECK_EQ( a.empty(), m.size() == 0, where );
  for( int k = 0; k < N; ++k )
  {
    CHECK_EQ( long( a.size( k ) ), m.dims[ k ], "length of dimension ", k, " after ", where );
    CHECK_EQ( long( a.dims()[ k ] ), m.dims[ k ], "dims()[", k, "] after ", where );
    CHECK_EQ( long( a.strides()[ k ] ), want[ k ], "stride of dimension ", k, " dims ", str< N >( m.dims ), " after ", where );
  }
  CHECK( long( a.capacity() ) >= m.size(), "capacity ", a.capacity(), " below size ", m.size(), " after ", where );
  forAll< N >( m.dims, [&]( Ix< N > const & i ) { CHECK_EQ( val( at< N >( a, i ) ), m( i ), "value at ", str< N >( i ), " dims ", str< N >( m.dims ), " after ", where ); } );
}
} // namespace lv
