// C33: the view types of the containers, to any depth, and the types the methods return.
#include "arr.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SortedArray.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "StackBuffer.hpp"
using namespace pbt;
using namespace lv;
namespace tman = LvArray::typeManipulation;
using LvArray::MallocBuffer;
template< typename T, int N, typename P > using Arr = LvArray::Array< T, N, P, int, MallocBuffer >;
template< typename T, int N, int U > using View = LvArray::ArrayView< T, N, U, int, MallocBuffer >;
/// What each of the five views of a type is, by definition: no view is a reference.
template< typename T > struct Want
{
  using V = T &; using VCS = T &; using VC = T const &; using NV = T &; using NVC = T const &;
  using NestedElem = T; using NestedConstElem = T const;
};
template< typename T, int N, typename P > struct Want< Arr< T, N, P > >
{
  static constexpr int U = int( tman::getStrideOneDimension( P {} ) );
  using V = View< T, N, U >; using VCS = V; using VC = View< T const, N, U >;
  using NestedElem = View< typename Want< T >::NestedElem, N, U > const; using NestedConstElem = View< typename Want< T >::NestedConstElem, N, U > const;
  using NV = NestedElem; using NVC = NestedConstElem;
};
template< typename T, int N, int U > struct Want< View< T, N, U > >
{
  using V = View< T, N, U >; using VCS = V; using VC = View< T const, N, U >;
  using NV = V const; using NVC = VC const;
};
#define WANT1( PARAM, ARG, ... ) template< PARAM > struct Want< ARG > { __VA_ARGS__ };
template< typename T > using Sorted = LvArray::SortedArray< T, int, MallocBuffer >;
template< typename T > using SortedView = LvArray::SortedArrayView< T, int, MallocBuffer >;
template< typename T > struct Want< Sorted< T > > { using V = SortedView< T const >; using VCS = V; using VC = V; using NV = V; using NVC = V; };
template< typename T > using AoA = LvArray::ArrayOfArrays< T, int, MallocBuffer >;
template< typename T, bool C > using AoAView = LvArray::ArrayOfArraysView< T, int const, C, MallocBuffer >;
template< typename T > struct Want< AoA< T > > { using V = AoAView< T, false >; using VCS = AoAView< T, true >; using VC = AoAView< T const, true >; using NV = V; using NVC = VC; };
template< typename T > using Pattern = LvArray::SparsityPattern< T, int, MallocBuffer >;
template< typename T > using PatternView = LvArray::SparsityPatternView< T, int const, MallocBuffer >;
template< typename T > struct Want< Pattern< T > > { using V = PatternView< T >; using VCS = V; using VC = PatternView< T const >; using NV = V; using NVC = VC; };
template< typename T, typename C > using Crs = LvArray::CRSMatrix< T, C, int, MallocBuffer >;
template< typename T, typename C > using CrsView = LvArray::CRSMatrixView< T, C, int const, MallocBuffer >;
template< typename T, typename C > struct Want< Crs< T, C > > { using V = CrsView< T, C >; using VCS = CrsView< T, C const >; using VC = CrsView< T const, C const >; using NV = V; using NVC = VC; };

struct Res { std::string type; bool same[ 10 ]; };
template< typename T > Res of()
{
  using W = Want< T >;
  return { typeid( T ).name(), { std::is_same< typename W::V, tman::ViewType< T > >::value, std::is_same< typename W::VCS, tman::ViewTypeConstSizes< T > >::value, std::is_same< typename W::VC, tman::ViewTypeConst< T > >::value,
    std::is_same< typename W::NV, tman::NestedViewType< T > >::value, std::is_same< typename W::NVC, tman::NestedViewTypeConst< T > >::value,
    std::is_same< typename W::V, tman::ViewType< T & > >::value, std::is_same< typename W::VCS, tman::ViewTypeConstSizes< T & > >::value, std::is_same< typename W::VC, tman::ViewTypeConst< T & > >::value,
    std::is_same< typename W::NV, tman::NestedViewType< T & > >::value, std::is_same< typename W::NVC, tman::NestedViewTypeConst< T & > >::value } };
}
/// Constant containers have the same views.
template< typename T > Res ofConst()
{
  using W = Want< T >;
  Res r { typeid( T ).name() + std::string( " const" ), { std::is_same< typename W::V, tman::ViewType< T const > >::value, std::is_same< typename W::VCS, tman::ViewTypeConstSizes< T const > >::value, std::is_same< typename W::VC, tman::ViewTypeConst< T const > >::value,
    std::is_same< typename W::NV, tman::NestedViewType< T const > >::value, std::is_same< typename W::NVC, tman::NestedViewTypeConst< T const > >::value } };
  for( int i = 5; i < 10; ++i ) r.same[ i ] = true;
  return r;
}
template< typename E > void arrays( std::vector< Res > & t )
{
  t.push_back( of< Arr< E, 1, RAJA::PERM_I > >() ); t.push_back( of< Arr< E, 2, RAJA::PERM_IJ > >() ); t.push_back( of< Arr< E, 2, RAJA::PERM_JI > >() );
  t.push_back( of< Arr< E, 3, RAJA::PERM_KIJ > >() ); t.push_back( of< Arr< E, 3, RAJA::PERM_IKJ > >() ); t.push_back( of< Arr< E, 4, RAJA::PERM_IJKL > >() ); t.push_back( of< Arr< E, 4, RAJA::PERM_LKJI > >() );
  t.push_back( ofConst< Arr< E, 2, RAJA::PERM_JI > >() ); t.push_back( ofConst< Arr< E, 3, RAJA::PERM_IJK > >() );
}
template< typename E > void leaf( std::vector< Res > & t )
{
  arrays< E >( t ); arrays< Arr< E, 1, RAJA::PERM_I > >( t ); arrays< Arr< E, 2, RAJA::PERM_JI > >( t ); arrays< Arr< Arr< E, 2, RAJA::PERM_IJ >, 1, RAJA::PERM_I > >( t );
  t.push_back( of< View< E, 2, 1 > >() ); t.push_back( of< View< E, 3, 0 > >() ); t.push_back( of< View< E const, 1, 0 > >() );
}
static void containers( Src & s )
{
  static auto const table = []()
  {
    std::vector< Res > t;
    leaf< int >( t ); leaf< double >( t ); leaf< std::string >( t ); leaf< char * >( t );
    t.push_back( of< Sorted< int > >() ); t.push_back( of< Sorted< std::string > >() ); t.push_back( ofConst< Sorted< float > >() );
    t.push_back( of< AoA< int > >() ); t.push_back( of< AoA< std::string > >() ); t.push_back( ofConst< AoA< double > >() ); t.push_back( of< AoA< Arr< int, 1, RAJA::PERM_I > > >() );
    t.push_back( of< Pattern< int > >() ); t.push_back( of< Pattern< unsigned char > >() ); t.push_back( ofConst< Pattern< long > >() );
    t.push_back( of< Crs< double, int > >() ); t.push_back( of< Crs< std::string, long > >() ); t.push_back( ofConst< Crs< int, unsigned > >() );
    return t;
  }();
  Res const & r = table[ s.choose( table.size() - 1 ) ];
  static char const * const names[] = { "ViewType", "ViewTypeConstSizes", "ViewTypeConst", "NestedViewType", "NestedViewTypeConst" };
  LOG( s, r.type );
  for( int i = 0; i < 10; ++i ) CHECK( r.same[ i ], names[ i % 5 ], " of ", r.type, i < 5 ? "" : " &" );
  s.nontrivial();
}
static Registrar r1( "viewtypes.containers", containers, 1000, "every case" );
