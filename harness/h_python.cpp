// C34: containers exported to Python share memory, and their Python methods do what the C++ operations do or raise.
#include "py.hpp"
#include "arr.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include "python/python.hpp"
#include "python/PyFunc.hpp"
#include <deque>
#include <malloc.h>
#if defined( __SANITIZE_ADDRESS__ )
#define HAVE_ASAN 1
#elif defined( __has_feature )
#if __has_feature( address_sanitizer )
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
#include <sanitizer/allocator_interface.h>
#endif

using namespace py;
using pbt::Span;
namespace lp = LvArray::python;
using LvArray::MallocBuffer;

template< typename C > Obj exportOf( C & c )
{
  module();
  Res r = outcome( lp::create( c ), "create" );
  CHECK( !r.raised(), r.exc, r.msg.substr( 0, 300 ) );
  return r.value;
}

// -------------------------------------------------------------------------------------------------
// Array
template< typename T, int N, typename PERM, typename INDEX > void arrayCase( Src & s )
{
  using A = LvArray::Array< T, N, PERM, INDEX, MallocBuffer >;
  using Ix = lv::Ix< N >;
  A a, twin;
  long const f = s.large( 20, 0.02 );
  Ix dims = lv::genDims< N >( s, 4 * f, 60 * f );
  auto resizeBoth = [&]( Ix const & d ) { INDEX x[ N ]; for( int k = 0; k < N; ++k ) x[ k ] = static_cast< INDEX >( d[ k ] ); a.resize( N, x ); twin.resize( N, x ); };
  auto fill = [&]() { lv::forAll< N >( dims, [&]( Ix const & i ) { T const v = genVal< T >( s ); lv::at< N >( a, i ) = v; lv::at< N >( twin, i ) = v; } ); };
  resizeBoth( dims );
  fill();
  LOG( s, "Array< " << npName< T >() << ", " << N << " > of " << lv::str< N >( dims ) );
  Obj const o = exportOf( a );
  Levels lev;
  initialLevel( s, o, lev );
  Obj held; // a view that is still valid

  auto key = []( Ix const & i )
  {
    Obj t( PyTuple_New( N ) );
    for( int k = 0; k < N; ++k ) PyTuple_SET_ITEM( t.get(), k, num( static_cast< long long >( i[ k ] ) ).release() );
    return t;
  };
  auto checkAll = [&]( Obj const & view, bool writeable, char const * what )
  {
    checkView( view, npName< T >(), std::vector< long >( dims.begin(), dims.end() ), writeable, a.data(), what );
    lv::forAll< N >( dims, [&]( Ix const & i )
    {
      char const * p = PyArray_BYTES( arr( view ) );
      for( int k = 0; k < N; ++k ) p += i[ k ] * PyArray_STRIDE( arr( view ), k );
      CHECK_EQ( static_cast< void const * >( p ), static_cast< void const * >( &lv::at< N >( a, i ) ), what, " element ", lv::str< N >( i ) );
    } );
  };
  auto check = [&]()
  {
    for( int k = 0; k < N; ++k ) { CHECK_EQ( static_cast< long >( a.size( k ) ), dims[ k ], "size of dimension ", k ); }
    lv::forAll< N >( dims, [&]( Ix const & i ) { CHECK_EQ( +lv::at< N >( a, i ), +lv::at< N >( twin, i ), "element ", lv::str< N >( i ) ); } );
    Res const g = call( o, "get_single_parameter_resize_index" );
    CHECK( !g.raised() ); CHECK_EQ( toInt( g.value ), static_cast< long long >( twin.getSingleParameterResizeIndex() ) );
    CHECK_EQ( a.getSingleParameterResizeIndex(), twin.getSingleParameterResizeIndex() );
    Res const v = call( o, "to_numpy" );
    CHECK( !v.raised(), v.exc, v.msg );
    checkAll( v.value, lev.canWrite(), "to_numpy" );
  };
  checkCommon< T >( o, "Array", npName< T >() );
  check();

  int n = 0, effects = 0;
  while( s.more( n, 24, 12 ) )
  {
    Span sp( s ); ++n;
    switch( s.weighted( { 1, 3, 3, 2, 4, 2, 1 } ) )
    {
      case 0: levelOp( s, o, lev, true ); break;
      case 1:
      {
        long const newSize = s.range< long >( 0, 6 ) - ( s.boolean( 0.15 ) ? 7 : 0 );
        LOG( s, "resize( " << newSize << " )" );
        bool const bad = s.boolean( 0.08 );
        Res const r = bad ? s.boolean() ? call( o, "resize", str( "3" ) ) : call( o, "resize" ) : call( o, "resize", num( static_cast< long long >( newSize ) ) );
        if( bad || newSize < 0 || !lev.canResize() ) { CHECK( r.raised(), "resize( ", newSize, " ) did not raise" ); s.label( "rejected" ); }
        else
        {
          CHECK( !r.raised(), r.exc, r.msg );
          int const d = twin.getSingleParameterResizeIndex();
          twin.resize( static_cast< INDEX >( newSize ) );
          dims[ d ] = newSize;
          held = Obj();
          ++effects;
        }
        break;
      }
      case 2:
      {
        std::vector< long long > d;
        int const count = s.boolean( 0.1 ) ? s.range< int >( 0, N + 1 ) : N;
        for( int k = 0; k < count; ++k ) d.push_back( s.boolean( 0.05 ) ? -1 : s.range< long long >( 0, 3 ) );
        Input< long long > in = genInput< long long >( s, d );
        LOG( s, "resize_all( " << in.desc << " " << show( in.values ) << " )" );
        bool valid = lev.canResize() && in.values.size() == N;
        for( long long x : in.values ) if( x < 0 ) valid = false;
        RefGuard g( in.obj );
        Res r = call( o, "resize_all", in.obj );
        g.done( r, "resize_all" );
        if( accepted( s, r, valid, in, "resize_all" ) )
        {
          INDEX x[ N ];
          for( int k = 0; k < N; ++k ) { dims[ k ] = in.values[ k ]; x[ k ] = static_cast< INDEX >( dims[ k ] ); }
          twin.resize( N, x );
          for( int k = 0; k < N; ++k ) { CHECK_EQ( static_cast< long >( a.size( k ) ), dims[ k ], "size after resize_all" ); }
          fill(); // its values are discarded
          held = Obj();
          ++effects;
        }
        break;
      }
      case 3:
      {
        int const d = s.range< int >( 0, N + 2 ) - 1;
        LOG( s, "set_single_parameter_resize_index( " << d << " )" );
        Res const r = call( o, "set_single_parameter_resize_index", num( static_cast< long long >( d ) ) );
        if( d < 0 || d >= N || !lev.canResize() ) { CHECK( r.raised(), "set_single_parameter_resize_index( ", d, " )" ); s.label( "rejected" ); }
        else { CHECK( !r.raised(), r.exc, r.msg ); twin.setSingleParameterResizeIndex( d ); }
        break;
      }
      case 4:
      {
        if( lv::prod< N >( dims ) == 0 ) break;
        Ix i; for( int k = 0; k < N; ++k ) i[ k ] = s.range< long >( 0, dims[ k ] - 1 );
        T const v = genVal< T >( s );
        LOG( s, "to_numpy()[ " << lv::str< N >( i ) << " ] = " << +v );
        Res const view = call( o, "to_numpy" );
        CHECK( !view.raised() );
        Res const r = setItem( view.value, key( i ), v );
        if( lev.canWrite() ) { CHECK( !r.raised(), r.exc, r.msg ); lv::at< N >( twin, i ) = v; ++effects; s.label( "wrote through a view" ); }
        else { CHECK( r.raised(), "wrote to a read only array" ); s.label( "rejected" ); }
        break;
      }
      case 5:
      {
        if( lv::prod< N >( dims ) == 0 ) break;
        Ix i; for( int k = 0; k < N; ++k ) i[ k ] = s.range< long >( 0, dims[ k ] - 1 );
        T const v = genVal< T >( s );
        LOG( s, "C++ writes " << lv::str< N >( i ) << " = " << +v );
        lv::at< N >( a, i ) = v; lv::at< N >( twin, i ) = v;
        Obj view = held;
        if( !view ) view = call( o, "to_numpy" ).value;
        Obj const x( PyObject_GetItem( view.get(), key( i ).get() ) );
        CHECK( x );
        CHECK_EQ( +toValue< T >( x ), +v, "seen through a view" );
        ++effects;
        break;
      }
      default:
        LOG( s, "hold a view" );
        held = call( o, "to_numpy" ).value;
        break;
    }
    check();
  }
  if( effects >= 2 ) s.nontrivial();
}
static pbt::Registrar rArray( "py_array", []( Src & s )
{
  switch( s.choose( 8 ) )
  {
    case 7: return arrayCase< int, 4, RAJA::PERM_LKJI, std::ptrdiff_t >( s );
    case 0: return arrayCase< double, 1, RAJA::PERM_I, std::ptrdiff_t >( s );
    case 1: return arrayCase< int, 2, RAJA::PERM_IJ, std::ptrdiff_t >( s );
    case 2: return arrayCase< long, 2, RAJA::PERM_JI, int >( s );
    case 3: return arrayCase< float, 3, RAJA::PERM_KIJ, std::ptrdiff_t >( s );
    case 4: return arrayCase< short, 3, RAJA::PERM_JKI, long long >( s );
    case 5: return arrayCase< bool, 2, RAJA::PERM_JI, std::ptrdiff_t >( s );
    case 6: return arrayCase< unsigned char, 1, RAJA::PERM_I, int >( s );
    default: return arrayCase< long long, 4, RAJA::PERM_LKJI, std::ptrdiff_t >( s );
  }
}, 600, "at least two modifications took effect" );

// -------------------------------------------------------------------------------------------------
// SortedArray
template< typename T > void sortedCase( Src & s )
{
  LvArray::SortedArray< T, std::ptrdiff_t, MallocBuffer > c;
  std::set< T > model;
  for( T v : genVals< T >( s, 6 ) ) { c.insert( v ); model.insert( v ); }
  LOG( s, "SortedArray< " << npName< T >() << " > of " << show( std::vector< T >( model.begin(), model.end() ) ) );
  Obj const o = exportOf( c );
  Levels lev;
  initialLevel( s, o, lev );
  checkCommon< T >( o, "SortedArray", npName< T >() );
  auto check = [&]()
  {
    CHECK_EQ( static_cast< std::size_t >( c.size() ), model.size(), "size of the C++ set" );
    std::size_t k = 0;
    for( T v : model ) { CHECK_EQ( +c[ k ], +v, "value ", k ); ++k; }
    Res const v = call( o, "to_numpy" );
    CHECK( !v.raised(), v.exc, v.msg );
    checkView( v.value, npName< T >(), { static_cast< long >( model.size() ) }, false, c.data(), "to_numpy" );
    k = 0;
    for( T x : model ) { CHECK_EQ( +toValue< T >( item( v.value, k ) ), +x, "value ", k, " of to_numpy" ); ++k; }
  };
  check();
  int n = 0, effects = 0;
  while( s.more( n, 24, 12 ) )
  {
    Span sp( s ); ++n;
    switch( s.weighted( { 1.2, 5, 4, 1, 1 } ) )
    {
      case 0: levelOp( s, o, lev, true ); break;
      case 1: case 2:
      {
        bool const insert = s.choose( 1 ) == 0;
        std::vector< T > want = genVals< T >( s, 12 );
        if( !insert ) for( T & x : want ) if( !model.empty() && s.boolean() ) { x = *std::next( model.begin(), s.choose( model.size() - 1 ) ); }
        if( s.boolean() ) std::sort( want.begin(), want.end() );
        Input< T > in = genInput< T >( s, want );
        char const * const name = insert ? "insert" : "remove";
        LOG( s, name << "( " << in.desc << " " << show( in.values ) << " )" );
        RefGuard g( in.obj );
        Res r = call( o, name, in.obj );
        g.done( r, name );
        if( accepted( s, r, lev.canResize(), in, name ) )
        {
          std::size_t const before = model.size();
          for( T x : in.values ) { if( insert ) model.insert( x ); else model.erase( x ); }
          CHECK_EQ( toInt( r.value ), static_cast< long long >( insert ? model.size() - before : before - model.size() ), name, " returns the number of values" );
          if( model.size() != before ) ++effects;
        }
        break;
      }
      case 3:
      {
        if( model.empty() ) break;
        LOG( s, "write to the view" );
        Obj const v = call( o, "to_numpy" ).value;
        CHECK( setItem( v, num( 0LL ), genVal< T >( s ) ).raised(), "wrote to a view of a set" );
        s.label( "rejected" );
        break;
      }
      default:
      {
        T const v = genVal< T >( s );
        LOG( s, "C++ inserts " << +v );
        c.insert( v ); model.insert( v );
        break;
      }
    }
    check();
  }
  if( effects >= 2 ) s.nontrivial();
}
static pbt::Registrar rSorted( "py_sorted_array", []( Src & s )
{
  switch( s.choose( 4 ) )
  {
    case 0: return sortedCase< long >( s );
    case 1: return sortedCase< int >( s );
    case 2: return sortedCase< double >( s );
    case 3: return sortedCase< short >( s );
    default: return sortedCase< unsigned char >( s );
  }
}, 600, "at least two insertions or removals changed the set" );

// -------------------------------------------------------------------------------------------------
// ArrayOfArrays
/// Indexing with any integer, valid or not, through the sequence protocol; -1 if it must raise.
inline long genIndex( Src & s, std::size_t size, Obj & key )
{
  long const i = s.boolean( 0.1 ) ? s.range< long >( 0, 6 ) - 3 + static_cast< long >( size ) : size == 0 ? 0 : s.range< long >( 0, static_cast< long >( size ) - 1 );
  bool const negative = s.boolean( 0.2 );
  long const k = negative ? i - static_cast< long >( size ) : i;
  key = num( static_cast< long long >( k ) );
  // Python adds the length to negative indices.
  long const r = k < 0 ? k + static_cast< long >( size ) : k;
  return r < 0 || r >= static_cast< long >( size ) ? -1 : r;
}
template< typename SEQ > void sequenceOps( Src & s, Obj const & o, SEQ const & model )
{
  switch( s.choose( 3 ) )
  {
    case 0:
    {
      LOG( s, "len and iteration" );
      Res const len = outcome( PyLong_FromSsize_t( PySequence_Size( o.get() ) ), "len" );
      CHECK( !len.raised() ); CHECK_EQ( toInt( len.value ), static_cast< long long >( model.size() ) );
      Res const l = outcome( PySequence_List( o.get() ), "list" );
      CHECK( !l.raised(), l.exc, l.msg ); CHECK_EQ( static_cast< std::size_t >( PyList_Size( l.value.get() ) ), model.size(), "iteration" );
      break;
    }
    case 1: LOG( s, "o + o" ); CHECK( outcome( PyNumber_Add( o.get(), o.get() ), "add" ).raised() ); break;
    case 2: LOG( s, "o * 2" ); CHECK( outcome( PyNumber_Multiply( o.get(), num( 2LL ).get() ), "mul" ).raised() ); break;
    default:
    {
      LOG( s, "o[ 0 ] = 1" );
      CHECK( outcomeInt( PySequence_SetItem( o.get(), 0, num( 1LL ).get() ), "setitem" ).raised() );
      s.label( "rejected" );
      break;
    }
  }
}
template< typename T, typename INDEX > void aoaCase( Src & s )
{
  LvArray::ArrayOfArrays< T, INDEX, MallocBuffer > c;
  std::vector< std::deque< T > > model;
  std::size_t const rows = s.boolean( 0.1 ) ? 0 : s.range< std::size_t >( 1, 4 );
  for( std::size_t i = 0; i < rows; ++i )
  {
    std::vector< T > const v = genVals< T >( s, 4 );
    c.appendArray( v.begin(), v.end() );
    model.emplace_back( v.begin(), v.end() );
  }
  LOG( s, "ArrayOfArrays< " << npName< T >() << " > with " << model.size() << " arrays" );
  Obj const o = exportOf( c );
  Levels lev;
  initialLevel( s, o, lev );
  checkCommon< T >( o, "ArrayOfArrays", npName< T >() );
  auto check = [&]()
  {
    CHECK_EQ( static_cast< std::size_t >( c.size() ), model.size(), "number of arrays" );
    for( std::size_t i = 0; i < model.size(); ++i )
    {
      CHECK_EQ( static_cast< std::size_t >( c.sizeOfArray( i ) ), model[ i ].size(), "size of array ", i );
      for( std::size_t j = 0; j < model[ i ].size(); ++j ) { CHECK_EQ( +c( i, j ), +model[ i ][ j ], "value ", i, " ", j ); }
      Res const v = outcome( PySequence_GetItem( o.get(), i ), "getitem" );
      CHECK( !v.raised(), v.exc, v.msg );
      checkView( v.value, npName< T >(), { static_cast< long >( model[ i ].size() ) }, lev.canWrite(), model[ i ].empty() ? nullptr : &c( i, 0 ), "an array" );
      for( std::size_t j = 0; j < model[ i ].size(); ++j ) { CHECK_EQ( +toValue< T >( item( v.value, j ) ), +model[ i ][ j ], "value ", i, " ", j, " in Python" ); }
    }
  };
  check();
  int n = 0, effects = 0;
  while( s.more( n, 24, 12 ) )
  {
    Span sp( s ); ++n;
    switch( s.weighted( { 1, 3, 4, 2, 1.5, 2, 0.6, 1 } ) )
    {
      case 0: levelOp( s, o, lev, false ); break;
      case 1:
      {
        long const pos = s.boolean( 0.1 ) ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, static_cast< long >( model.size() ) );
        Input< T > in = genInput< T >( s, genVals< T >( s, 5 ) );
        LOG( s, "insert( " << pos << ", " << in.desc << " " << show( in.values ) << " )" );
        bool const valid = pos >= 0 && pos <= static_cast< long >( model.size() ) && lev.canResize();
        RefGuard g( in.obj );
        Res r = call( o, "insert", num( static_cast< long long >( pos ) ), in.obj );
        g.done( r, "insert" );
        if( accepted( s, r, valid, in, "insert" ) ) { model.insert( model.begin() + pos, std::deque< T >( in.values.begin(), in.values.end() ) ); ++effects; }
        break;
      }
      case 2:
      {
        long const i = s.boolean( 0.1 ) || model.empty() ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, static_cast< long >( model.size() ) - 1 );
        bool const row = i >= 0 && i < static_cast< long >( model.size() );
        long const len = row ? model[ i ].size() : 2;
        long const j = s.boolean( 0.1 ) ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, len );
        Input< T > in = genInput< T >( s, genVals< T >( s, 5 ) );
        LOG( s, "insert_into( " << i << ", " << j << ", " << in.desc << " " << show( in.values ) << " )" );
        bool const valid = row && j >= 0 && j <= len && lev.canResize();
        RefGuard g( in.obj );
        Res r = call( o, "insert_into", num( static_cast< long long >( i ) ), num( static_cast< long long >( j ) ), in.obj );
        g.done( r, "insert_into" );
        if( accepted( s, r, valid, in, "insert_into" ) ) { model[ i ].insert( model[ i ].begin() + j, in.values.begin(), in.values.end() ); if( !in.values.empty() ) ++effects; }
        break;
      }
      case 3:
      {
        long const i = s.boolean( 0.1 ) || model.empty() ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, static_cast< long >( model.size() ) - 1 );
        bool const row = i >= 0 && i < static_cast< long >( model.size() );
        long const len = row ? model[ i ].size() : 2;
        long const j = s.boolean( 0.1 ) || len == 0 ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, len - 1 );
        LOG( s, "erase_from( " << i << ", " << j << " )" );
        Res const r = call( o, "erase_from", num( static_cast< long long >( i ) ), num( static_cast< long long >( j ) ) );
        if( row && j >= 0 && j < len && lev.canResize() ) { CHECK( !r.raised(), r.exc, r.msg ); model[ i ].erase( model[ i ].begin() + j ); ++effects; }
        else { CHECK( r.raised(), "erase_from( ", i, ", ", j, " )" ); s.label( "rejected" ); }
        break;
      }
      case 4:
      {
        Obj key;
        long const i = genIndex( s, model.size(), key );
        LOG( s, "del [ " << text( key.get() ) << " ]" );
        Res const r = outcomeInt( PyObject_DelItem( o.get(), key.get() ), "delitem" );
        if( i >= 0 && lev.canResize() ) { CHECK( !r.raised(), r.exc, r.msg ); model.erase( model.begin() + i ); ++effects; }
        else { CHECK( r.raised(), "del [ ", text( key.get() ), " ]" ); s.label( "rejected" ); }
        break;
      }
      case 5:
      {
        Obj key;
        long const i = genIndex( s, model.size(), key );
        LOG( s, "[ " << text( key.get() ) << " ][ j ] = v" );
        Res const r = outcome( PyObject_GetItem( o.get(), key.get() ), "getitem" );
        if( i < 0 ) { CHECK( r.raised(), "[ ", text( key.get() ), " ]" ); CHECK_EQ( r.exc, std::string( "IndexError" ) ); s.label( "rejected" ); break; }
        CHECK( !r.raised(), r.exc, r.msg );
        if( model[ i ].empty() ) break;
        long const j = s.range< long >( 0, static_cast< long >( model[ i ].size() ) - 1 );
        T const v = genVal< T >( s );
        Res const w = setItem( r.value, num( static_cast< long long >( j ) ), v );
        if( lev.canWrite() ) { CHECK( !w.raised(), w.exc, w.msg ); model[ i ][ j ] = v; ++effects; }
        else { CHECK( w.raised(), "wrote to a read only array" ); s.label( "rejected" ); }
        break;
      }
      case 6: sequenceOps( s, o, model ); break;
      default:
      {
        if( model.empty() ) break;
        long const i = s.range< long >( 0, static_cast< long >( model.size() ) - 1 );
        T const v = genVal< T >( s );
        LOG( s, "C++ appends " << +v << " to " << i );
        c.emplaceBack( static_cast< INDEX >( i ), v ); model[ i ].push_back( v );
        break;
      }
    }
    check();
  }
  if( effects >= 2 ) s.nontrivial();
}
static pbt::Registrar rAoa( "py_array_of_arrays", []( Src & s )
{
  switch( s.choose( 3 ) )
  {
    case 0: return aoaCase< int, std::ptrdiff_t >( s );
    case 1: return aoaCase< double, std::ptrdiff_t >( s );
    case 2: return aoaCase< long long, int >( s );
    default: return aoaCase< float, std::ptrdiff_t >( s );
  }
}, 600, "at least two modifications took effect" );

// -------------------------------------------------------------------------------------------------
// ArrayOfSets
template< typename T, typename INDEX > void aosCase( Src & s )
{
  LvArray::ArrayOfSets< T, INDEX, MallocBuffer > c;
  std::vector< std::set< T > > model;
  std::size_t const rows = s.boolean( 0.1 ) ? 0 : s.range< std::size_t >( 1, 4 );
  for( std::size_t i = 0; i < rows; ++i )
  {
    c.appendSet( 2 );
    model.emplace_back();
    for( T v : genVals< T >( s, 4 ) ) { c.insertIntoSet( static_cast< INDEX >( i ), v ); model.back().insert( v ); }
  }
  LOG( s, "ArrayOfSets< " << npName< T >() << " > with " << model.size() << " sets" );
  Obj const o = exportOf( c );
  Levels lev;
  initialLevel( s, o, lev );
  checkCommon< T >( o, "ArrayOfSets", npName< T >() );
  auto check = [&]()
  {
    CHECK_EQ( static_cast< std::size_t >( c.size() ), model.size(), "number of sets" );
    for( std::size_t i = 0; i < model.size(); ++i )
    {
      CHECK_EQ( static_cast< std::size_t >( c.sizeOfSet( i ) ), model[ i ].size(), "size of set ", i );
      std::size_t j = 0;
      for( T v : model[ i ] ) { CHECK_EQ( +c( i, j ), +v, "value ", i, " ", j ); ++j; }
      Res const v = outcome( PySequence_GetItem( o.get(), i ), "getitem" );
      CHECK( !v.raised(), v.exc, v.msg );
      checkView( v.value, npName< T >(), { static_cast< long >( model[ i ].size() ) }, false, model[ i ].empty() ? nullptr : &c( i, 0 ), "a set" );
      j = 0;
      for( T x : model[ i ] ) { CHECK_EQ( +toValue< T >( item( v.value, j ) ), +x, "value ", i, " ", j, " in Python" ); ++j; }
    }
  };
  check();
  int n = 0, effects = 0;
  while( s.more( n, 24, 12 ) )
  {
    Span sp( s ); ++n;
    switch( s.weighted( { 1, 2, 4, 3, 1.5, 1, 0.6 } ) )
    {
      case 0: levelOp( s, o, lev, false ); break;
      case 1:
      {
        long const pos = s.boolean( 0.1 ) ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, static_cast< long >( model.size() ) );
        long const cap = s.range< long >( 0, 5 ) - ( s.boolean( 0.1 ) ? 6 : 0 );
        bool const withCap = s.boolean();
        LOG( s, "insert( " << pos << ", " << cap << " )" );
        Res const r = withCap ? call( o, "insert", num( static_cast< long long >( pos ) ), num( static_cast< long long >( cap ) ) ) : call( o, "insert", num( static_cast< long long >( pos ) ) );
        if( pos >= 0 && pos <= static_cast< long >( model.size() ) && ( !withCap || cap >= 0 ) && lev.canResize() )
        {
          CHECK( !r.raised(), r.exc, r.msg ); model.insert( model.begin() + pos, std::set< T >() ); ++effects;
          if( withCap ) { CHECK( static_cast< long >( c.capacityOfSet( static_cast< INDEX >( pos ) ) ) >= cap, "capacity of the new set" ); }
        }
        else { CHECK( r.raised(), "insert( ", pos, ", ", cap, " )" ); s.label( "rejected" ); }
        break;
      }
      case 2: case 3:
      {
        bool const insert = s.choose( 1 ) == 0;
        long const i = s.boolean( 0.1 ) || model.empty() ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, static_cast< long >( model.size() ) - 1 );
        bool const row = i >= 0 && i < static_cast< long >( model.size() );
        std::vector< T > want = genVals< T >( s, 8 );
        if( !insert && row ) for( T & x : want ) if( !model[ i ].empty() && s.boolean() ) x = *std::next( model[ i ].begin(), s.choose( model[ i ].size() - 1 ) );
        if( s.boolean() ) std::sort( want.begin(), want.end() );
        Input< T > in = genInput< T >( s, want );
        char const * const name = insert ? "insert_into" : "erase_from";
        LOG( s, name << "( " << i << ", " << in.desc << " " << show( in.values ) << " )" );
        RefGuard g( in.obj );
        Res r = call( o, name, num( static_cast< long long >( i ) ), in.obj );
        g.done( r, name );
        if( accepted( s, r, row && lev.canResize(), in, name ) )
        {
          std::size_t const before = model[ i ].size();
          for( T x : in.values ) { if( insert ) model[ i ].insert( x ); else model[ i ].erase( x ); }
          CHECK_EQ( toInt( r.value ), static_cast< long long >( insert ? model[ i ].size() - before : before - model[ i ].size() ), name, " returns the number of values" );
          if( model[ i ].size() != before ) ++effects;
        }
        break;
      }
      case 4:
      {
        Obj key;
        long const i = genIndex( s, model.size(), key );
        LOG( s, "del [ " << text( key.get() ) << " ]" );
        Res const r = outcomeInt( PyObject_DelItem( o.get(), key.get() ), "delitem" );
        if( i >= 0 && lev.canResize() ) { CHECK( !r.raised(), r.exc, r.msg ); model.erase( model.begin() + i ); ++effects; }
        else { CHECK( r.raised(), "del [ ", text( key.get() ), " ]" ); s.label( "rejected" ); }
        break;
      }
      case 5:
      {
        Obj key;
        long const i = genIndex( s, model.size(), key );
        LOG( s, "[ " << text( key.get() ) << " ][ 0 ] = v" );
        Res const r = outcome( PyObject_GetItem( o.get(), key.get() ), "getitem" );
        if( i < 0 ) { CHECK( r.raised(), "[ ", text( key.get() ), " ]" ); CHECK_EQ( r.exc, std::string( "IndexError" ) ); s.label( "rejected" ); break; }
        CHECK( !r.raised(), r.exc, r.msg );
        if( model[ i ].empty() ) break;
        CHECK( setItem( r.value, num( 0LL ), genVal< T >( s ) ).raised(), "wrote to a view of a set" );
        s.label( "rejected" );
        break;
      }
      default: sequenceOps( s, o, model ); break;
    }
    check();
  }
  if( effects >= 2 ) s.nontrivial();
}
static pbt::Registrar rAos( "py_array_of_sets", []( Src & s )
{
  switch( s.choose( 2 ) )
  {
    case 0: return aosCase< int, std::ptrdiff_t >( s );
    case 1: return aosCase< long, int >( s );
    default: return aosCase< double, std::ptrdiff_t >( s );
  }
}, 600, "at least two modifications took effect" );

// -------------------------------------------------------------------------------------------------
// CRSMatrix
template< typename T, typename COL, typename INDEX > void crsCase( Src & s )
{
  LvArray::CRSMatrix< T, COL, INDEX, MallocBuffer > c;
  std::vector< std::map< COL, T > > model;
  long nCols = s.boolean( 0.1 ) ? s.range< long >( 0, 2 ) : s.range< long >( 3, 12 );
  model.resize( s.boolean( 0.1 ) ? 0 : s.range< std::size_t >( 1, 4 ) );
  c.resize( static_cast< INDEX >( model.size() ), static_cast< INDEX >( nCols ), static_cast< INDEX >( s.range< int >( 0, 3 ) ) );
  LOG( s, "CRSMatrix< " << npName< T >() << ", " << npName< COL >() << " > " << model.size() << " x " << nCols );
  Obj const o = exportOf( c );
  Levels lev;
  initialLevel( s, o, lev );
  checkCommon< T >( o, "CRSMatrix", npName< T >() );
  auto check = [&]()
  {
    Res const nr = call( o, "num_rows" ), nc = call( o, "num_columns" );
    CHECK( !nr.raised() && !nc.raised() );
    CHECK_EQ( toInt( nr.value ), static_cast< long long >( model.size() ), "num_rows" );
    CHECK_EQ( toInt( nc.value ), static_cast< long long >( nCols ), "num_columns" );
    CHECK_EQ( static_cast< std::size_t >( c.numRows() ), model.size() );
    for( std::size_t i = 0; i < model.size(); ++i )
    {
      INDEX const row = static_cast< INDEX >( i );
      CHECK_EQ( static_cast< std::size_t >( c.numNonZeros( row ) ), model[ i ].size(), "non zeros of row ", i );
      Res const cols = call( o, "get_columns", num( static_cast< long long >( i ) ) ), ent = call( o, "get_entries", num( static_cast< long long >( i ) ) );
      CHECK( !cols.raised() && !ent.raised(), cols.exc, ent.exc );
      long const n = static_cast< long >( model[ i ].size() );
      checkView( cols.value, npName< COL >(), { n }, false, c.getColumns( row ).dataIfContiguous(), "get_columns" );
      checkView( ent.value, npName< T >(), { n }, lev.canWrite(), c.getEntries( row ).dataIfContiguous(), "get_entries" );
      long j = 0;
      for( auto const & kv : model[ i ] )
      {
        CHECK_EQ( +c.getColumns( row )[ j ], +kv.first, "column ", j, " of row ", i );
        CHECK_EQ( +c.getEntries( row )[ j ], +kv.second, "entry ", j, " of row ", i );
        CHECK_EQ( +toValue< COL >( item( cols.value, j ) ), +kv.first, "get_columns( ", i, " )[ ", j, " ]" );
        CHECK_EQ( +toValue< T >( item( ent.value, j ) ), +kv.second, "get_entries( ", i, " )[ ", j, " ]" );
        ++j;
      }
    }
  };
  check();
  auto genRow = [&]() { return s.boolean( 0.1 ) || model.empty() ? s.range< long >( 0, 8 ) - 3 : s.range< long >( 0, static_cast< long >( model.size() ) - 1 ); };
  auto validRow = [&]( long const i ) { return i >= 0 && i < static_cast< long >( model.size() ); };
  /// Columns in any order, sometimes repeated or out of bounds, often of the row.
  auto genCols = [&]( long const i, double const existing )
  {
    std::vector< COL > r;
    std::size_t const n = s.length( 5 );
    bool const wild = s.boolean( 0.08 );
    for( std::size_t k = 0; k < n; ++k )
    {
      COL x = static_cast< COL >( s.range< long >( 0, std::max( 0L, nCols - 1 ) ) );
      if( validRow( i ) && !model[ i ].empty() && s.boolean( existing ) ) x = std::next( model[ i ].begin(), s.choose( model[ i ].size() - 1 ) )->first;
      if( wild && s.boolean() ) x = static_cast< COL >( s.range< int >( 0, 20 ) - 5 );
      if( !wild && std::find( r.begin(), r.end(), x ) != r.end() ) continue;
      r.push_back( x );
    }
    if( s.boolean() ) std::sort( r.begin(), r.end() );
    return r;
  };
  auto inBounds = [&]( std::vector< COL > const & cols ) { for( COL x : cols ) { if( x < 0 || static_cast< long >( x ) >= nCols ) return false; } return true; };
  auto unique = []( std::vector< COL > const & cols ) { return std::set< COL >( cols.begin(), cols.end() ).size() == cols.size(); };
  int n = 0, effects = 0;
  while( s.more( n, 24, 12 ) )
  {
    Span sp( s ); ++n;
    switch( s.weighted( { 1, 1.2, 6, 3, 3, 1.5, 2, 2 } ) )
    {
      case 0: levelOp( s, o, lev, true ); break;
      case 1:
      {
        long used = 0;
        for( auto const & r : model ) if( !r.empty() ) used = std::max( used, static_cast< long >( r.rbegin()->first ) + 1 );
        long rows = s.range< long >( 0, 5 ) - ( s.boolean( 0.05 ) ? 6 : 0 );
        // Entries in columns that are taken away are not judged.
        long cols = used + s.range< long >( 0, 5 );
        long const cap = s.range< long >( 0, 4 ) - ( s.boolean( 0.05 ) ? 5 : 0 );
        bool tooMany = false;
        if( s.boolean( 0.06 ) ) { cols = -1; }
        else if( sizeof( COL ) < 4 && s.boolean( 0.1 ) ) { cols = static_cast< long >( std::numeric_limits< COL >::max() ) + 1 + static_cast< long >( s.choose( 2 ) ); tooMany = cols - 1 > std::numeric_limits< COL >::max(); }
        bool const withCap = s.boolean();
        LOG( s, "resize( " << rows << ", " << cols << ", " << cap << " )" );
        Res const r = withCap ? call( o, "resize", num( static_cast< long long >( rows ) ), num( static_cast< long long >( cols ) ), num( static_cast< long long >( cap ) ) )
                              : call( o, "resize", num( static_cast< long long >( rows ) ), num( static_cast< long long >( cols ) ) );
        if( rows < 0 || cols < 0 || tooMany || ( withCap && cap < 0 ) || !lev.canResize() ) { CHECK( r.raised(), "resize( ", rows, ", ", cols, ", ", cap, " )" ); s.label( "rejected" ); }
        else { CHECK( !r.raised(), r.exc, r.msg.substr( 0, 300 ) ); model.resize( rows ); nCols = cols; ++effects; }
        break;
      }
      case 2:
      {
        long const i = genRow();
        std::vector< COL > const cols = genCols( i, 0.2 );
        std::vector< T > vals; for( std::size_t k = 0; k < cols.size(); ++k ) vals.push_back( genVal< T >( s ) );
        if( s.boolean( 0.1 ) ) { if( s.boolean() || vals.empty() ) vals.push_back( T( 1 ) ); else vals.pop_back(); }
        Input< COL > ic = genInput< COL >( s, cols ); Input< T > iv = genInput< T >( s, vals );
        LOG( s, "insert_nonzeros( " << i << ", " << ic.desc << show( ic.values ) << ", " << iv.desc << show( iv.values ) << " )" );
        bool const valid = validRow( i ) && lev.canResize() && ic.values.size() == iv.values.size() && inBounds( ic.values ) && unique( ic.values ) && iv.expect != Input< T >::REJECT;
        if( iv.expect == Input< T >::EITHER && ic.expect == Input< COL >::OK ) ic.expect = Input< COL >::EITHER;
        RefGuard g( ic.obj ), h( iv.obj );
        Res r = call( o, "insert_nonzeros", num( static_cast< long long >( i ) ), ic.obj, iv.obj );
        g.done( r, "insert_nonzeros" ); h.done( r, "insert_nonzeros" );
        if( accepted( s, r, valid, ic, "insert_nonzeros" ) )
        {
          long long inserted = 0;
          for( std::size_t k = 0; k < ic.values.size(); ++k ) inserted += model[ i ].emplace( ic.values[ k ], iv.values[ k ] ).second;
          CHECK_EQ( toInt( r.value ), inserted, "insert_nonzeros returns the number inserted" );
          if( inserted ) ++effects;
        }
        break;
      }
      case 3:
      {
        long const i = genRow();
        Input< COL > ic = genInput< COL >( s, genCols( i, 0.6 ) );
        LOG( s, "remove_nonzeros( " << i << ", " << ic.desc << show( ic.values ) << " )" );
        bool const valid = validRow( i ) && lev.canResize();
        // Columns out of bounds are not there to be removed; they may also be rejected.
        if( !inBounds( ic.values ) && ic.expect == Input< COL >::OK ) ic.expect = Input< COL >::EITHER;
        RefGuard g( ic.obj );
        Res r = call( o, "remove_nonzeros", num( static_cast< long long >( i ) ), ic.obj );
        g.done( r, "remove_nonzeros" );
        if( accepted( s, r, valid, ic, "remove_nonzeros" ) )
        {
          long long removed = 0;
          for( COL x : ic.values ) removed += static_cast< long long >( model[ i ].erase( x ) );
          CHECK_EQ( toInt( r.value ), removed, "remove_nonzeros returns the number removed" );
          if( removed ) ++effects;
        }
        break;
      }
      case 4:
      {
        long const i = genRow();
        std::vector< COL > const cols = genCols( i, 0.95 );
        std::vector< T > vals; for( std::size_t k = 0; k < cols.size(); ++k ) vals.push_back( genVal< T >( s ) );
        if( s.boolean( 0.1 ) ) { if( s.boolean() || vals.empty() ) vals.push_back( T( 1 ) ); else vals.pop_back(); }
        Input< COL > ic = genInput< COL >( s, cols ); Input< T > iv = genInput< T >( s, vals );
        LOG( s, "add_to_row( " << i << ", " << ic.desc << show( ic.values ) << ", " << iv.desc << show( iv.values ) << " )" );
        bool valid = validRow( i ) && lev.canResize() && ic.values.size() == iv.values.size() && iv.expect != Input< T >::REJECT;
        if( valid ) for( COL x : ic.values ) if( model[ i ].count( x ) == 0 ) valid = false;
        if( iv.expect == Input< T >::EITHER && ic.expect == Input< COL >::OK ) ic.expect = Input< COL >::EITHER;
        RefGuard g( ic.obj ), h( iv.obj );
        Res r = call( o, "add_to_row", num( static_cast< long long >( i ) ), ic.obj, iv.obj );
        g.done( r, "add_to_row" ); h.done( r, "add_to_row" );
        if( accepted( s, r, valid, ic, "add_to_row" ) )
        {
          for( std::size_t k = 0; k < ic.values.size(); ++k ) model[ i ][ ic.values[ k ] ] += iv.values[ k ];
          if( !ic.values.empty() ) { ++effects; s.label( "added to a row" ); }
        }
        break;
      }
      case 5:
      {
        LOG( s, "compress" );
        Res const r = call( o, "compress" );
        if( lev.canResize() )
        {
          CHECK( !r.raised(), r.exc, r.msg );
          for( INDEX i = 0; i < c.numRows(); ++i ) { CHECK_EQ( c.nonZeroCapacity( i ), c.numNonZeros( i ), "after compress" ); }
        }
        else { CHECK( r.raised() ); s.label( "rejected" ); }
        break;
      }
      case 6:
      {
        LOG( s, "to_scipy" );
        bool compressed = true;
        for( INDEX i = 0; i < c.numRows(); ++i ) if( c.nonZeroCapacity( i ) != c.numNonZeros( i ) ) compressed = false;
        Res const r = call( o, "to_scipy" );
        if( !compressed || model.empty() ) { CHECK( r.raised(), "to_scipy of an uncompressed or empty matrix" ); s.label( "to_scipy rejected" ); break; }
        if( nCols == 0 && r.raised() ) break; // SciPy itself may reject a matrix without columns
        CHECK( !r.raised(), r.exc, r.msg.substr( 0, 300 ) );
        s.label( "to_scipy" );
        Obj const shape = attr( r.value, "shape" );
        CHECK_EQ( toInt( item( shape, 0 ) ), static_cast< long long >( model.size() ), "rows" );
        CHECK_EQ( toInt( item( shape, 1 ) ), static_cast< long long >( nCols ), "columns" );
        Obj const data = attr( r.value, "data" ), dense( PyObject_CallMethod( r.value.get(), "toarray", nullptr ) );
        CHECK( dense );
        CHECK_EQ( typeChar( data.get() ), std::string( npName< T >() ), "type of the entries" );
        long nnz = 0;
        for( auto const & row : model ) nnz += row.size();
        CHECK_EQ( static_cast< long >( PyArray_SIZE( arr( data ) ) ), nnz, "entries" );
        if( nnz )
        {
          CHECK_EQ( static_cast< void const * >( PyArray_DATA( arr( data ) ) ), static_cast< void const * >( c.getEntries( 0 ).dataIfContiguous() ), "entries do not share the memory" );
          CHECK_EQ( PyArray_ISWRITEABLE( arr( data ) ) != 0, lev.canWrite(), "entries writeable" );
        }
        for( std::size_t i = 0; i < model.size(); ++i )
        {
          Obj const row = item( dense, i );
          for( long j = 0; j < nCols && j < 100; ++j )
          {
            auto const it = model[ i ].find( static_cast< COL >( j ) );
            CHECK_EQ( +toValue< T >( item( row, j ) ), +( it == model[ i ].end() ? T( 0 ) : it->second ), "to_scipy()[ ", i, ", ", j, " ]" );
          }
        }
        break;
      }
      default:
      {
        long const i = genRow();
        LOG( s, "write an entry of row " << i );
        Res const r = call( o, "get_entries", num( static_cast< long long >( i ) ) ), q = call( o, "get_columns", num( static_cast< long long >( i ) ) );
        if( !validRow( i ) ) { CHECK( r.raised() && q.raised(), "row ", i ); s.label( "rejected" ); break; }
        CHECK( !r.raised() && !q.raised() );
        if( model[ i ].empty() ) break;
        long const j = s.range< long >( 0, static_cast< long >( model[ i ].size() ) - 1 );
        T const v = genVal< T >( s );
        Res const w = setItem( r.value, num( static_cast< long long >( j ) ), v );
        if( lev.canWrite() ) { CHECK( !w.raised(), w.exc, w.msg ); std::next( model[ i ].begin(), j )->second = v; ++effects; }
        else { CHECK( w.raised(), "wrote to a read only matrix" ); s.label( "rejected" ); }
        CHECK( setItem( q.value, num( static_cast< long long >( j ) ), static_cast< COL >( 0 ) ).raised(), "wrote to the columns" );
        break;
      }
    }
    check();
  }
  if( effects >= 2 ) s.nontrivial();
}
static pbt::Registrar rCrs( "py_crs_matrix", []( Src & s )
{
  switch( s.choose( 3 ) )
  {
    case 0: return crsCase< double, int, std::ptrdiff_t >( s );
    case 1: return crsCase< int, short, std::ptrdiff_t >( s );
    case 2: return crsCase< float, long, int >( s );
    default: return crsCase< long, signed char, std::ptrdiff_t >( s );
  }
}, 600, "at least two modifications took effect" );

// -------------------------------------------------------------------------------------------------
// Scalars, strings and callbacks
template< typename T > void scalarCase( Src & s )
{
  T v = genVal< T >( s );
  T const w = genVal< T >( s );
  LOG( s, "scalar " << npName< T >() << " " << +v );
  Obj const o = exportOf( v ), k = exportOf( w );
  checkView( o, npName< T >(), { 1 }, true, &v, "a scalar" );
  checkView( k, npName< T >(), { 1 }, false, &w, "a constant scalar" );
  T const x = genVal< T >( s );
  Res const r = setItem( o, num( 0LL ), x );
  CHECK( !r.raised(), r.exc, r.msg ); CHECK_EQ( +v, +x, "written through Python" );
  v = genVal< T >( s );
  CHECK_EQ( +toValue< T >( item( o, 0 ) ), +v, "written by C++" );
  CHECK( setItem( k, num( 0LL ), x ).raised(), "wrote to a constant" );
  // The conversions between types.
  int const code = PyArray_TYPE( arr( o ) );
  CHECK( lp::getTypeIndexFromNumPy( code ) == std::type_index( typeid( T ) ) || ( std::is_same_v< T, char > ), "getTypeIndexFromNumPy( ", code, " )" );
  CHECK( lp::getNumPyTypeName( code ).rfind( "NPY_", 0 ) == 0, lp::getNumPyTypeName( code ) );
  Obj const t = outcome( lp::getNumPyTypeObject( typeid( T ) ), "getNumPyTypeObject" ).value;
  CHECK( t ); CHECK_EQ( text( attr( Obj( PyObject_CallMethod( g_numpy.get(), "dtype", "O", t.get() ) ), "char" ).get() ), std::string( npName< T >() ) );
  s.nontrivial();
}
static std::string genString( Src & s, bool & valid )
{
  static char const * const parts[] = { "a", "Z", " ", "0", "\n", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "", "\xff", "\xc3", "\xed\xa0\x80" };
  std::string r;
  std::size_t const n = s.length( 8 );
  for( std::size_t i = 0; i < n; ++i )
  {
    std::size_t const k = s.weighted( { 8, 3, 2, 2, 1, 2, 1, 1, 2, 0.15, 0.15, 0.15 } );
    if( k == 8 ) r += '\0';
    else r += parts[ k ];
    if( k > 8 ) valid = false;
  }
  // An incomplete character followed by a continuation byte does not occur in this list.
  return r;
}
static bool sameString( PyObject * o, std::string const & want )
{
  if( !PyUnicode_Check( o ) ) return false;
  Py_ssize_t n = 0;
  char const * const c = PyUnicode_AsUTF8AndSize( o, &n );
  if( !c ) { PyErr_Clear(); return false; }
  return std::string( c, n ) == want;
}
static void stringCase( Src & s )
{
  std::size_t const n = s.length( 5 );
  bool allValid = true;
  LvArray::Array< std::string, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer > a( n );
  std::vector< std::string > v( n );
  for( std::size_t i = 0; i < n; ++i )
  {
    bool valid = true;
    v[ i ] = a[ i ] = genString( s, valid );
    allValid = allValid && valid;
    LOG( s, "string of " << v[ i ].size() << ( valid ? "" : " invalid" ) );
    Res const r = outcome( lp::create( v[ i ] ), "create( string )" );
    if( valid ) { CHECK( !r.raised() && sameString( r.value.get(), v[ i ] ), "a string differs in Python: ", reprOf( r.value.get() ) ); }
    else { CHECK( r.raised(), "a string that is not UTF-8" ); s.label( "rejected" ); }
  }
  auto checkList = [&]( Res const & r, char const * what )
  {
    if( !allValid ) { CHECK( r.raised(), what, " with a string that is not UTF-8" ); return; }
    CHECK( !r.raised(), what, r.exc, r.msg );
    CHECK( PyList_Check( r.value.get() ), what ); CHECK_EQ( static_cast< std::size_t >( PyList_Size( r.value.get() ) ), n, what );
    for( std::size_t i = 0; i < n; ++i ) { CHECK( sameString( PyList_GetItem( r.value.get(), i ), v[ i ] ), what, " string ", i ); }
  };
  checkList( outcome( lp::create( v ), "create( vector )" ), "create( vector )" );
  Obj const o = exportOf( a );
  checkList( call( o, "to_numpy" ), "to_numpy" );
  checkCommon< std::string >( o, "Array", nullptr );
  if( n >= 2 ) s.nontrivial();
}
static pbt::Registrar rScalar( "py_scalars_and_strings", []( Src & s )
{
  switch( s.choose( 14 ) )
  {
    case 0: return scalarCase< int >( s );
    case 1: return scalarCase< double >( s );
    case 2: return scalarCase< long >( s );
    case 3: return scalarCase< float >( s );
    case 4: return scalarCase< bool >( s );
    case 5: return scalarCase< char >( s );
    case 6: return scalarCase< unsigned char >( s );
    case 7: return scalarCase< unsigned short >( s );
    case 8: return scalarCase< short >( s );
    case 9: return scalarCase< unsigned int >( s );
    case 10: return scalarCase< unsigned long >( s );
    case 11: return scalarCase< long long >( s );
    case 12: return scalarCase< unsigned long long >( s );
    case 13: return scalarCase< signed char >( s );
    default: return stringCase( s );
  }
}, 200, "a scalar, or at least two strings" );

/// Python functions to call back; each records its arguments.
static Obj callbacks()
{
  static char const code[] =
    "import pylvarray\n"
    "seen = []\n"
    "class Custom( Exception ): pass\n"
    "def record( *a ): seen.append( tuple( type( x ).__name__ for x in a ) )\n"
    "def write( i, d, s, c ):\n  record( i, d, s, c ); i[ 0 ] = i[ 0 ] + 1; c.set_access_level( pylvarray.RESIZEABLE ); c.insert( c.dtype( i[ 0 ] ) )\n"
    "def keep( i, d, s, c ):\n  record( i, d, s, c ); return [ i, d, s, c ]\n"
    "def fails( i, d, s, c ):\n  record( i, d, s, c ); raise Custom( 'foobar' )\n"
    "def writeConst( i, d, s, c ):\n  record( i, d, s, c ); d[ 0 ] = 7\n"
    "def few( i ): pass\n";
  Obj const mod( PyModule_New( "callbacks" ) );
  Obj dict = borrow( PyModule_GetDict( mod.get() ) );
  PyDict_SetItemString( dict.get(), "__builtins__", PyEval_GetBuiltins() );
  Obj const r( PyRun_String( code, Py_file_input, dict.get(), dict.get() ) );
  if( !r ) { PyErr_Print(); std::abort(); }
  Obj copy( PyDict_Copy( dict.get() ) );
  return dict;
}
static void callbackCase( Src & s )
{
  using Set = LvArray::SortedArray< long, std::ptrdiff_t, MallocBuffer >;
  module();
  static Obj * const dict = new Obj( callbacks() );
  auto get = [&]( char const * n ) { return borrow( PyDict_GetItemString( dict->get(), n ) ); };
  PyObject * const seen = PyDict_GetItemString( dict->get(), "seen" );
  PyList_SetSlice( seen, 0, PyList_Size( seen ), nullptr );
  int i = genVal< int >( s );
  double const d = genVal< double >( s );
  std::string const str = "text";
  Set set;
  std::set< long > model;
  static char const * const names[] = { "write", "keep", "fails", "writeConst", "few", "seen" };
  int n = 0, calls = 0;
  while( s.more( n, 8, 4 ) )
  {
    Span sp( s ); ++n;
    std::string const name = names[ s.weighted( { 4, 2, 2, 1, 1, 1 } ) ];
    LOG( s, name );
    Obj const f = get( name.c_str() );
    Py_ssize_t const refs = Py_REFCNT( f.get() );
    bool threw = false;
    {
      lp::PythonFunction< int &, double const &, std::string const &, Set & > func( f.get() );
      CHECK_EQ( static_cast< long >( Py_REFCNT( f.get() ) ), static_cast< long >( refs + 1 ), "a PythonFunction owns a reference" );
      auto copy = func;
      CHECK_EQ( static_cast< long >( Py_REFCNT( f.get() ) ), static_cast< long >( refs + 2 ), "a copy owns a reference" );
      try { if( s.boolean() ) func( i, d, str, set ); else copy( i, d, str, set ); }
      catch( lp::PythonError const & ) { threw = true; }
    }
    CHECK_EQ( PyErr_Occurred() != nullptr, threw, "a PythonError is thrown iff the function raised" );
    std::string exc;
    if( threw ) exc = outcome( nullptr, "callback" ).exc;
    CHECK_EQ( static_cast< long >( Py_REFCNT( f.get() ) ), static_cast< long >( refs ), "references to the function afterwards" );
    bool const raises = name == "fails" || name == "writeConst" || name == "few" || name == "seen";
    CHECK_EQ( threw, raises, name, " raised ", exc );
    if( name == "fails" ) { CHECK( exc.find( "Custom" ) != std::string::npos, exc ); }
    if( name != "few" && name != "seen" )
    {
      ++calls;
      CHECK_EQ( static_cast< int >( PyList_Size( seen ) ), calls, "calls" );
      CHECK_EQ( text( PyList_GetItem( seen, calls - 1 ) ), std::string( "('ndarray', 'ndarray', 'str', 'SortedArray')" ) );
    }
    if( name == "write" ) model.insert( i );
    CHECK_EQ( static_cast< std::size_t >( set.size() ), model.size(), "values inserted by the callback" );
    std::size_t k = 0;
    for( long v : model ) { CHECK_EQ( set[ k ], v ); ++k; }
    if( s.boolean() ) i = genVal< int >( s );
  }
  if( calls >= 2 ) s.nontrivial();
}
static pbt::Registrar rCallback( "py_callback", callbackCase, 150, "a Python function was called at least twice" );

// Arguments of which some cannot be turned into Python objects.
static void callbackArgumentsCase( Src & s )
{
  module();
  static Obj * const dict = new Obj( callbacks() );
  PyObject * const record = PyDict_GetItemString( dict->get(), "record" );
  PyObject * const seen = PyDict_GetItemString( dict->get(), "seen" );
  PyList_SetSlice( seen, 0, PyList_Size( seen ), nullptr );
  int n = 0, calls = 0, refused = 0;
  while( s.more( n, 10, 5 ) )
  {
    Span sp( s ); ++n;
    static char const * const texts[] = { "", "text", "more \xc3\xa9", "\xff", "a\xc3", "\x80zz" };
    std::vector< std::size_t > which( 3 );
    for( auto & w : which ) w = s.choose( 5 );
    std::string const x[ 3 ] = { texts[ which[ 0 ] ], texts[ which[ 1 ] ], texts[ which[ 2 ] ] };
    int i = genVal< int >( s );
    std::size_t const kind = s.choose( 3 );
    int const nText = kind == 0 ? 1 : kind == 3 ? 3 : 2;
    bool bad = false;
    for( int k = 0; k < nText; ++k ) bad = bad || which[ k ] >= 3;
    LOG( s, "call kind " << kind << " texts " << which[ 0 ] << ' ' << which[ 1 ] << ' ' << which[ 2 ] );
    Py_ssize_t const refs = Py_REFCNT( record );
    bool threw = false;
    std::string expected;
    try
    {
      switch( kind )
      {
        case 0: expected = "('str',)"; { lp::PythonFunction< std::string const & > f{ record }; f( x[ 0 ] ); break; }
        case 1: expected = "('str', 'ndarray', 'str')"; { lp::PythonFunction< std::string const &, int const &, std::string const & > f{ record }; f( x[ 0 ], i, x[ 1 ] ); break; }
        case 2: expected = "('ndarray', 'str', 'str')"; { lp::PythonFunction< int &, std::string const &, std::string const & > f{ record }; f( i, x[ 0 ], x[ 1 ] ); break; }
        default: expected = "('str', 'str', 'ndarray', 'str')"; { lp::PythonFunction< std::string const &, std::string const &, int &, std::string const & > f{ record }; f( x[ 0 ], x[ 1 ], i, x[ 2 ] ); break; }
      }
    }
    catch( lp::PythonError const & ) { threw = true; }
    CHECK_EQ( PyErr_Occurred() != nullptr, threw, "a PythonError is thrown iff an exception is set" );
    if( threw ) outcome( nullptr, "callback" );
    CHECK_EQ( threw, bad, "raised" );
    CHECK_EQ( static_cast< long >( Py_REFCNT( record ) ), static_cast< long >( refs ), "references to the function afterwards" );
    bad ? ++refused : ++calls;
    CHECK_EQ( static_cast< int >( PyList_Size( seen ) ), calls, "the function is called iff every argument could be converted" );
    if( !bad ) { CHECK_EQ( text( PyList_GetItem( seen, calls - 1 ) ), expected ); }
  }
  if( calls && refused ) s.nontrivial();
}
static pbt::Registrar rCallbackArguments( "py_callback_arguments", callbackArgumentsCase, 100, "a call was made and a call was refused" );

// -------------------------------------------------------------------------------------------------
// Conversion of an argument to one of the classes of the module
static void convertCase( Src & s )
{
  module();
  LvArray::Array< int, 1, camp::idx_seq< 0 >, std::ptrdiff_t, MallocBuffer > array( 3 );
  LvArray::SortedArray< int, std::ptrdiff_t, MallocBuffer > sorted;
  LvArray::ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer > aoa( 2 );
  LvArray::ArrayOfSets< int, std::ptrdiff_t, MallocBuffer > aos( 2 );
  LvArray::CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer > crs( 2, 2 );
  std::vector< PyTypeObject * > const types = {
    lp::getPyArrayType(), lp::getPySortedArrayType(), lp::getPyArrayOfArraysType(), lp::getPyArrayOfSetsType(), lp::getPyCRSMatrixType(),
    &PyLong_Type, &PyUnicode_Type, &PyList_Type, &PyBool_Type };
  std::vector< Obj > objs;
  objs.push_back( exportOf( array ) );
  objs.push_back( exportOf( sorted ) );
  objs.push_back( exportOf( aoa ) );
  objs.push_back( exportOf( aos ) );
  objs.push_back( exportOf( crs ) );
  objs.push_back( num( 7LL ) );
  objs.push_back( str( "text" ) );
  objs.push_back( Obj( PyList_New( 0 ) ) );
  objs.push_back( borrow( Py_True ) );
  objs.push_back( none() );
  int n = 0, ok = 0, refused = 0;
  while( s.more( n, 12, 6 ) )
  {
    Span sp( s ); ++n;
    std::size_t const t = s.choose( types.size() - 1 ), o = s.weighted( { 4, 1 } ) == 0 && s.boolean() ? t : s.choose( objs.size() );
    PyObject * const obj = o < objs.size() ? objs[ o ].get() : nullptr;
    LOG( s, "convert object " << o << " to " << types[ t ]->tp_name );
    Py_ssize_t const refs = obj ? Py_REFCNT( obj ) : 0;
    PyObject * const r = lp::convert< PyObject >( obj, types[ t ] );
    bool const expected = o == t || ( o == 8 && t == 5 ); // a bool is an int
    CHECK( r == ( expected ? obj : nullptr ), "convert" );
    CHECK_EQ( PyErr_Occurred() != nullptr, !expected, "an exception is set iff the object is of another type" );
    if( !expected )
    {
      std::string const exc = outcome( nullptr, "convert" ).exc;
      CHECK_EQ( exc, std::string( obj ? "TypeError" : "RuntimeError" ) );
    }
    if( obj ) CHECK_EQ( static_cast< long >( Py_REFCNT( obj ) ), static_cast< long >( refs ), "references to the object" );
    expected ? ++ok : ++refused;
  }
  if( ok && refused ) s.nontrivial();
}
static pbt::Registrar rConvert( "py_convert", convertCase, 100, "an object was converted and another was refused" );

// -------------------------------------------------------------------------------------------------
// References
static void refCase( Src & s )
{
  constexpr int NOBJ = 3, NREF = 4;
  std::vector< Obj > objs;
  for( int k = 0; k < NOBJ; ++k ) objs.emplace_back( PyList_New( 0 ) );
  std::vector< lp::PyObjectRef<> > refs( NREF );
  std::vector< int > model( NREF, -1 );
  auto give = [&]( int k ) { Py_INCREF( objs[ k ].get() ); return objs[ k ].get(); };
  int n = 0, effects = 0;
  while( s.more( n, 20, 10 ) )
  {
    Span sp( s ); ++n;
    int const a = s.range< int >( 0, NREF - 1 ), b = s.range< int >( 0, NREF - 1 ), k = s.range< int >( 0, NOBJ - 1 );
    switch( s.choose( 8 ) )
    {
      case 0: LOG( s, "ref " << a << " = object " << k ); refs[ a ] = give( k ); model[ a ] = k; break;
      case 1: LOG( s, "ref " << a << " = ref " << b ); refs[ a ] = refs[ b ]; model[ a ] = model[ b ]; ++effects; break;
      case 2: if( a == b ) break; LOG( s, "ref " << a << " = move( ref " << b << " )" ); refs[ a ] = std::move( refs[ b ] ); model[ a ] = model[ b ]; model[ b ] = -1; ++effects; break;
      case 3: LOG( s, "ref " << a << " = copy of ref " << b ); { lp::PyObjectRef<> t( refs[ b ] ); refs[ a ] = t; } model[ a ] = model[ b ]; break;
      case 4: LOG( s, "ref " << a << " = temporary" ); refs[ a ] = lp::PyObjectRef<>( give( k ) ); model[ a ] = k; ++effects; break;
      case 5: if( a == b ) break; { LOG( s, "move construct" ); lp::PyObjectRef<> t( std::move( refs[ b ] ) ); CHECK( refs[ b ].get() == nullptr ); refs[ a ] = std::move( t ); } model[ a ] = model[ b ]; model[ b ] = -1; break;
      case 6: { LOG( s, "release " << a ); PyObject * const p = refs[ a ].release(); CHECK( p == ( model[ a ] < 0 ? nullptr : objs[ model[ a ] ].get() ) ); Py_XDECREF( p ); model[ a ] = -1; break; }
      case 7: { LOG( s, "fill " << a ); if( model[ a ] >= 0 ) break; *refs[ a ].getAddress() = give( k ); model[ a ] = k; break; }
      default: LOG( s, "ref " << a << " = nullptr" ); refs[ a ] = static_cast< PyObject * >( nullptr ); model[ a ] = -1; break;
    }
    for( int i = 0; i < NREF; ++i ) { CHECK( refs[ i ].get() == ( model[ i ] < 0 ? nullptr : objs[ model[ i ] ].get() ), "ref ", i ); }
    for( int i = 0; i < NOBJ; ++i ) { CHECK_EQ( static_cast< long >( Py_REFCNT( objs[ i ].get() ) ), static_cast< long >( 1 + std::count( model.begin(), model.end(), i ) ), "references to object ", i ); }
  }
  refs.clear();
  for( int i = 0; i < NOBJ; ++i ) { CHECK_EQ( static_cast< long >( Py_REFCNT( objs[ i ].get() ) ), 1L, "references to object ", i, " at the end" ); }
  if( effects >= 2 ) s.nontrivial();
}
static pbt::Registrar rRefs( "py_object_ref", refCase, 400, "at least two references were assigned to" );

// -------------------------------------------------------------------------------------------------
// Objects created in Python: everything raises.
static void uninitializedCase( Src & s )
{
  Obj const mod = module();
  struct Class { char const * name; std::vector< char const * > methods; bool sequence; };
  static std::vector< Class > const classes = {
    { "Array", { "get_single_parameter_resize_index", "set_single_parameter_resize_index", "resize", "resize_all", "to_numpy" }, false },
    { "SortedArray", { "insert", "remove", "to_numpy" }, false },
    { "ArrayOfArrays", { "insert", "insert_into", "erase_from" }, true },
    { "ArrayOfSets", { "insert", "insert_into", "erase_from" }, true },
    { "CRSMatrix", { "num_rows", "num_columns", "get_columns", "get_entries", "to_scipy", "resize", "compress", "insert_nonzeros", "remove_nonzeros", "add_to_row" }, false } };
  Class const & c = s.pick( classes );
  Res const r = outcome( PyObject_CallObject( attr( mod, c.name ).get(), nullptr ), c.name );
  if( r.raised() ) return; // may not be possible at all
  Obj const o = r.value;
  int n = 0;
  while( s.more( n, 10, 6 ) )
  {
    Span sp( s ); ++n;
    std::vector< std::string > names( c.methods.begin(), c.methods.end() );
    names.push_back( "get_access_level" ); names.push_back( "set_access_level" ); names.push_back( "repr" ); names.push_back( "dtype" );
    if( c.sequence ) { names.push_back( "len" ); names.push_back( "item" ); names.push_back( "del" ); names.push_back( "list" ); names.push_back( "set" ); }
    std::string const name = s.pick( names );
    std::size_t const argc = s.choose( 3 );
    LOG( s, c.name << "()." << name << " with " << argc << " arguments" );
    auto raises = [&]( Res const & x ) { CHECK( x.raised(), c.name, "().", name, " did not raise" ); };
    if( name == "repr" ) raises( outcome( PyObject_Repr( o.get() ), "repr" ) );
    else if( name == "dtype" ) raises( outcome( PyObject_GetAttrString( o.get(), "dtype" ), "dtype" ) );
    else if( name == "len" ) raises( outcomeInt( PySequence_Size( o.get() ) < 0 ? -1 : 0, "len" ) );
    else if( name == "item" ) raises( outcome( PySequence_GetItem( o.get(), 0 ), "item" ) );
    else if( name == "del" ) raises( outcomeInt( PySequence_DelItem( o.get(), s.boolean() ? 0 : -1 ), "del" ) );
    else if( name == "set" ) raises( outcomeInt( PySequence_SetItem( o.get(), 0, Py_None ), "set" ) );
    else if( name == "list" ) raises( outcome( PySequence_List( o.get() ), "list" ) );
    else
    {
      Obj const args( PyTuple_New( argc ) );
      for( std::size_t k = 0; k < argc; ++k ) PyTuple_SET_ITEM( args.get(), k, s.boolean( 0.7 ) ? PyLong_FromLong( 0 ) : PyList_New( 0 ) );
      raises( callTuple( o, name.c_str(), args ) );
    }
  }
  if( n >= 2 ) s.nontrivial();
}
static pbt::Registrar rUninit( "py_uninitialized", uninitializedCase, 200, "at least two methods called" );

// -------------------------------------------------------------------------------------------------
// What Python owns is released.
static std::size_t allocatedBytes()
{
#ifdef HAVE_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  struct mallinfo2 const m = mallinfo2();
  return m.uordblks + m.hblkhd;
#endif
}
static void leakCase( Src & s )
{
  Obj const mod = module();
  LvArray::Array< double, 2, RAJA::PERM_IJ, std::ptrdiff_t, MallocBuffer > a( 3, 4 );
  LvArray::Array< std::string, 1, RAJA::PERM_I, std::ptrdiff_t, MallocBuffer > strings( 3 );
  for( auto & x : strings ) x = "some text that is long";
  LvArray::SortedArray< int, std::ptrdiff_t, MallocBuffer > set;
  LvArray::ArrayOfArrays< int, std::ptrdiff_t, MallocBuffer > aoa( 2, 4 );
  LvArray::ArrayOfSets< int, std::ptrdiff_t, MallocBuffer > aos( 2, 4 );
  LvArray::CRSMatrix< double, int, std::ptrdiff_t, MallocBuffer > crs( 2, 5, 2 );
  crs.insertNonZero( 0, 1, 2. );
  crs.compress();
  double scalar = 1;
  Obj const resizeable = attr( mod, "RESIZEABLE" );
  Obj const oa = exportOf( a ), os = exportOf( set ), oaoa = exportOf( aoa ), oaos = exportOf( aos ), ocrs = exportOf( crs );
  for( Obj const * o : { &oa, &os, &oaoa, &oaos, &ocrs } ) call( *o, "set_access_level", resizeable );
  Obj const ints = npArray( listOf( std::vector< int > { 1, 2, 3 } ), "i" ), shorts = npArray( listOf( std::vector< int > { 1, 2, 3 } ), "h" ), doubles = npArray( listOf( std::vector< int > { 1, 2, 3 } ), "d" );
  Obj const one = npArray( listOf( std::vector< int > { 1 } ), "h" ), dims = listOf( std::vector< int > { 3, 4 } ), zero = num( 0LL );
  Obj const lambda( PyObject_GetAttrString( mod.get(), "Array" ) );
  std::size_t const op = s.choose( 19 );
  LOG( s, "operation " << op );
  auto act = [&]()
  {
    switch( op )
    {
      case 0: exportOf( a ); break;
      case 1: exportOf( set ); break;
      case 2: exportOf( aoa ); break;
      case 3: exportOf( aos ); break;
      case 4: exportOf( crs ); break;
      case 5: exportOf( scalar ); break;
      case 6: call( oa, "to_numpy" ); call( os, "to_numpy" ); break;
      case 7: outcome( lp::create( std::vector< std::string > { "some text", "more text" } ), "create" ); call( exportOf( strings ), "to_numpy" ); break;
      case 8: call( oa, "resize_all", dims ); call( oa, "resize_all", ints ); call( oa, "resize_all", doubles ); break;
      case 9: call( os, "insert", shorts ); call( os, "insert", doubles ); call( os, "remove", shorts ); break;
      case 10: call( oaoa, "insert_into", zero, zero, one ); call( oaoa, "erase_from", zero, zero ); call( oaoa, "insert_into", zero, zero, doubles ); break;
      case 11: call( oaos, "insert_into", zero, one ); call( oaos, "erase_from", zero, one ); call( oaos, "erase_from", zero, doubles ); break;
      case 12: call( ocrs, "insert_nonzeros", zero, one, one ); call( ocrs, "add_to_row", zero, one, one ); call( ocrs, "insert_nonzeros", zero, ints, one ); call( ocrs, "remove_nonzeros", zero, doubles ); break;
      case 13: { Res const r = call( ocrs, "to_scipy" ); CHECK( !r.raised(), r.exc, r.msg ); break; }
      case 14: call( ocrs, "get_columns", zero ); call( ocrs, "get_entries", zero ); call( ocrs, "get_entries", num( 99LL ) ); break;
      case 15: outcome( PySequence_List( oaoa.get() ), "list" ); outcome( PySequence_List( oaos.get() ), "list" ); break;
      case 16: outcome( lp::getNumPyTypeObject( typeid( int ) ), "type" ); outcome( lp::getNumPyTypeObject( typeid( std::string ) ), "type" ); break;
      case 17: for( Obj const * o : { &oa, &os, &oaoa, &oaos, &ocrs } ) { outcome( PyObject_Repr( o->get() ), "repr" ); call( *o, "get_access_level" ); call( *o, "set_access_level", resizeable ); attr( *o, "dtype" ); } break;
      case 18:
      {
        lp::PythonFunction< double & > f( lambda.get() ); // raises, it takes no arguments
        bool threw = false;
        try { f( scalar ); } catch( lp::PythonError const & ) { threw = true; PyErr_Clear(); }
        ( void ) threw;
        break;
      }
      default:
      {
        Obj const m( PyModule_New( "other" ) );
        Py_ssize_t const refs = Py_REFCNT( mod.get() );
        CHECK( lp::addPyLvArrayModule( m.get() ) );
        CHECK( PyObject_GetAttrString( m.get(), "pylvarray" ) == mod.get() );
        Py_DECREF( mod.get() );
        CHECK_EQ( static_cast< long >( Py_REFCNT( mod.get() ) ), static_cast< long >( refs + 1 ), "references to the module after addPyLvArrayModule" );
        break;
      }
    }
  };
  int const K = 40;
  auto collect = []() { PyType_ClearCache(); PyGC_Collect(); }; // the cache holds on to the names of attributes
  for( int k = 0; k < 15; ++k ) act();
  long least = std::numeric_limits< long >::max();
  for( int round = 0; round < 3; ++round )
  {
    collect();
    std::size_t const before = allocatedBytes();
    for( int k = 0; k < K; ++k ) act();
    collect();
    least = std::min( least, static_cast< long >( allocatedBytes() ) - static_cast< long >( before ) );
  }
  CHECK( least < K * 16, "operation ", op, ": ", K, " repetitions leave at least ", least, " bytes allocated" );
  s.nontrivial();
}
static pbt::Registrar rLeak( "py_release", leakCase, 60, "every case", false, false );
