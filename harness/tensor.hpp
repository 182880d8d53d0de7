// Operands of the tensor operations: C arrays, slices of arrays of several layouts, views, arrays and types with a SIZE.
#pragma once
#include "arr.hpp"
#include "tensorOps.hpp"

namespace lv
{
using Real = long double;
namespace tensorOps = LvArray::tensorOps;

/// A source of operand values: small integers, exact in every type, or arbitrary reals.
template< typename T > T operandValue( pbt::Src & s, bool exact )
{
  if( exact || std::is_integral< T >::value ) return T( s.range( 0, 18 ) - 9 );
  return T( s.real( false ) );
}

/// Storage of an operand; everything around the elements must stay as it is.
template< typename T > struct Storage
{
  T * base = nullptr; long count = 0;
  std::vector< char > saved;
  void save() { saved.assign( reinterpret_cast< char * >( base ), reinterpret_cast< char * >( base + count ) ); }
  /// The elements not in `changed` still have the bytes they had.
  void checkUnchanged( std::set< T * > const & changed, char const * what ) const
  {
    for( long i = 0; i < count; ++i )
      if( !changed.count( base + i ) )
        CHECK( std::memcmp( base + i, saved.data() + i * sizeof( T ), sizeof( T ) ) == 0, what, ": an element that is not part of the result changed, now ", base[ i ] );
  }
};

template< typename T, int N > struct WithSize
{
  static constexpr int SIZE = N;
  T d[ N ];
  T & operator[]( std::ptrdiff_t i ) { return d[ i ]; }
  T const & operator[]( std::ptrdiff_t i ) const { return d[ i ]; }
};

/// An operand of any kind. 0 C array, 1-3 parts of larger arrays or views, 4 and 5 views, arrays or types with SIZE.
template< typename T > struct Operand
{
  Operand( int m, int n, int kind ): M( m ), N( n ), KIND( kind ) {}
  int M, N, KIND;
  std::vector< T > raw;
  std::vector< T * > e;
  Storage< T > st;
  T * p( int i, int j = 0 ) const { return e[ i * N + j ]; }
  Real get( int i, int j = 0 ) const { return Real( *p( i, j ) ); }
  std::set< T * > elements() const { return std::set< T * >( e.begin(), e.end() ); }
  void init( pbt::Src & s, bool exact )
  {
    for( long i = 0; i < st.count; ++i ) st.base[ i ] = T( 101 + i % 20 );
    for( T * x : e ) *x = operandValue< T >( s, exact );
    st.save();
  }
};

template< typename T > struct Vec : Operand< T >
{
  LvArray::Array< T, 2, RAJA::PERM_IJ, std::ptrdiff_t, LvArray::MallocBuffer > ij;
  LvArray::Array< T, 2, RAJA::PERM_JI, int, LvArray::MallocBuffer > ji;
  LvArray::Array< T, 1, RAJA::PERM_I, int, LvArray::MallocBuffer > one;
  LvArray::ArrayView< T, 1, 0, int, LvArray::MallocBuffer > view;
  LvArray::ArrayView< T const, 1, 0, int, LvArray::MallocBuffer > cview;
  Vec( pbt::Src & s, bool exact, int n, int kind ): Operand< T >( n, 1, kind )
  {
    auto & st = this->st;
    int const N = n, KIND = kind;
    st.count = 3 * N;
    if( KIND == 1 ) { ij.resize( 3, N ); st.base = ij.data(); }
    else if( KIND == 2 ) { ji.resize( 3, N ); st.base = ji.data(); }
    else if( KIND == 3 || KIND == 5 ) { one.reserve( N + 2 ); one.resize( N ); st.base = one.data(); st.count = N + 2; view = one.toView(); cview = one.toViewConst(); }
    else { this->raw.resize( 3 * N ); st.base = this->raw.data(); }
    for( int i = 0; i < N; ++i ) this->e.push_back( st.base + ( KIND == 2 ? 1 + 3 * i : KIND == 3 || KIND == 5 ? i : N + i ) );
    this->init( s, exact );
  }
};
/// The operand as the type of its kind.
template< int N, int KIND, typename T > decltype( auto ) dst( Vec< T > & v )
{
  if constexpr( KIND == 0 ) return *reinterpret_cast< T (*)[ N ] >( v.p( 0 ) );
  else if constexpr( KIND == 1 ) return v.ij[ 1 ];
  else if constexpr( KIND == 2 ) return v.ji[ 1 ];
  else if constexpr( KIND == 3 ) return ( v.view );
  else if constexpr( KIND == 4 ) return *reinterpret_cast< WithSize< T, N > * >( v.p( 0 ) );
  else return ( v.one );
}
template< int N, int KIND, typename T > decltype( auto ) src( Vec< T > & v )
{
  if constexpr( KIND == 0 ) return *reinterpret_cast< T const (*)[ N ] >( v.p( 0 ) );
  else if constexpr( KIND == 1 ) return v.ij.toSliceConst()[ 1 ];
  else if constexpr( KIND == 2 ) return v.ji.toSliceConst()[ 1 ];
  else if constexpr( KIND == 3 ) return ( v.cview );
  else if constexpr( KIND == 4 ) return *reinterpret_cast< WithSize< T, N > const * >( v.p( 0 ) );
  else return ( v.one );
}

template< typename T > struct Mat : Operand< T >
{
  LvArray::Array< T, 3, RAJA::PERM_IJK, std::ptrdiff_t, LvArray::MallocBuffer > ijk;
  LvArray::Array< T, 3, RAJA::PERM_IKJ, int, LvArray::MallocBuffer > ikj;
  LvArray::Array< T, 3, RAJA::PERM_KJI, int, LvArray::MallocBuffer > kji;
  LvArray::Array< T, 2, RAJA::PERM_JI, int, LvArray::MallocBuffer > ji;
  LvArray::Array< T, 2, RAJA::PERM_IJ, int, LvArray::MallocBuffer > ij;
  LvArray::ArrayView< T, 2, 0, int, LvArray::MallocBuffer > view;
  LvArray::ArrayView< T const, 2, 0, int, LvArray::MallocBuffer > cview;
  Mat( pbt::Src & s, bool exact, int M, int N, int KIND ): Operand< T >( M, N, KIND )
  {
    auto & st = this->st;
    st.count = 3 * M * N;
    if( KIND == 1 ) { ijk.resize( 3, M, N ); st.base = ijk.data(); }
    else if( KIND == 2 ) { ikj.resize( 3, M, N ); st.base = ikj.data(); }
    else if( KIND == 3 ) { kji.resize( 3, M, N ); st.base = kji.data(); }
    else if( KIND == 4 ) { ji.reserve( M * N + 2 ); ji.resize( M, N ); st.base = ji.data(); st.count = M * N + 2; view = ji.toView(); cview = ji.toViewConst(); }
    else if( KIND == 5 ) { ij.reserve( M * N + 2 ); ij.resize( M, N ); st.base = ij.data(); st.count = M * N + 2; }
    else { this->raw.resize( 3 * M * N ); st.base = this->raw.data(); }
    for( int i = 0; i < M; ++i )
      for( int j = 0; j < N; ++j )
      {
        long const at[] = { M * N + N * i + j, M * N + N * i + j, M * N + i + M * j, 1 + 3 * i + 3 * M * j, i + M * j, N * i + j };
        this->e.push_back( st.base + at[ KIND ] );
      }
    this->init( s, exact );
  }
};
template< int M, int N, int KIND, typename T > decltype( auto ) dst( Mat< T > & m )
{
  if constexpr( KIND == 0 ) return *reinterpret_cast< T (*)[ M ][ N ] >( m.p( 0 ) );
  else if constexpr( KIND == 1 ) return m.ijk[ 1 ];
  else if constexpr( KIND == 2 ) return m.ikj[ 1 ];
  else if constexpr( KIND == 3 ) return m.kji[ 1 ];
  else if constexpr( KIND == 4 ) return ( m.view );
  else return ( m.ij );
}
template< int M, int N, int KIND, typename T > decltype( auto ) src( Mat< T > & m )
{
  if constexpr( KIND == 0 ) return *reinterpret_cast< T const (*)[ M ][ N ] >( m.p( 0 ) );
  else if constexpr( KIND == 1 ) return m.ijk.toSliceConst()[ 1 ];
  else if constexpr( KIND == 2 ) return m.ikj.toSliceConst()[ 1 ];
  else if constexpr( KIND == 3 ) return m.kji.toSliceConst()[ 1 ];
  else if constexpr( KIND == 4 ) return ( m.cview );
  else return ( m.ij );
}

/// Expected value of one element with the sum of magnitudes of its terms.
struct Ex
{
  Real v = 0, mag = 0;
  Ex() = default;
  Ex( Real x ): v( x ), mag( std::fabs( x ) ) {}
  Ex operator+( Ex const & o ) const { Ex r; r.v = v + o.v; r.mag = mag + o.mag; return r; }
  Ex operator-( Ex const & o ) const { Ex r; r.v = v - o.v; r.mag = mag + o.mag; return r; }
  Ex operator*( Ex const & o ) const { Ex r; r.v = v * o.v; r.mag = mag * o.mag; return r; }
};

template< typename... T > constexpr Real coarsest()
{
  Real e = 0;
  ( void ) std::initializer_list< int >{ ( e = std::max( e, std::is_integral< T >::value ? Real( 0 ) : Real( std::numeric_limits< T >::epsilon() ) ), 0 )... };
  return e;
}

/// A value of a result computed with rounding eps from terms of the given magnitude.
template< typename T > void checkValue( T const got, Ex const & want, Real eps, bool exact, char const * op, int i, int j )
{
  if( exact ) { CHECK( Real( got ) == want.v, op, ": entry ", i, ",", j, " is ", got, " expected ", want.v ); return; }
  Real const tol = want.mag * eps * 16 + Real( std::numeric_limits< T >::min() );
  CHECK( std::fabs( Real( got ) - want.v ) <= tol, op, ": entry ", i, ",", j, " is ", got, " expected ", want.v, " +- ", tol );
}
} // namespace lv
