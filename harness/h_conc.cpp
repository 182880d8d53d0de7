// C24: thread-safe operations lose no update. Built with VERIF_SCHED (generated schedules) and without (free threads, ThreadSanitizer).
#include "ragged.hpp"
#include "sched.hpp"
#include "Array.hpp"
using namespace pbt;
using namespace lv;

#if defined( VERIF_SCHED )
void verif_yield() { if( RAJA::verif_detail::verif_noYield == 0 ) sched::yield(); }
int RAJA::verif_detail::verif_noYield = 0;
void verif_parallel( int n, std::function< void( int ) > const & body )
{
  if( sched::g_src == nullptr ) { for( int t = 0; t < n; ++t ) body( t ); return; }
  std::vector< sched::Program > p;
  for( int t = 0; t < n; ++t ) p.push_back( [&body, t]() { body( t ); } );
  sched::run( *sched::g_src, p );
}
struct UseSchedule { explicit UseSchedule( Src & s ) { sched::g_src = &s; } ~UseSchedule() { sched::g_src = nullptr; } };
#else
struct UseSchedule { explicit UseSchedule( Src & ) {} };
#endif

/// A value that lets other threads in whenever it is created, copied, compared or destroyed, and behaves as a number.
class Y
{
public:
  Y(): Y( 0 ) {}
  Y( int v ) { m_lo = v; verif_yield(); m_hi = v; }
  Y( Y const & o ) { m_lo = o.m_lo; verif_yield(); m_hi = o.m_hi; }
  Y & operator=( Y const & o ) { verif_yield(); m_lo = o.m_lo; verif_yield(); m_hi = o.m_hi; return *this; }
  ~Y() { m_lo = -1; m_hi = -2; }
  int get() const { if( m_lo != m_hi ) return -1000000; return m_lo; }
  Y & operator+=( Y const & o ) { int const a = get(), b = o.get(); verif_yield(); m_lo = m_hi = a + b; return *this; }
  friend Y operator+( Y const & a, Y const & b ) { int const v = a.get() + b.get(); verif_yield(); return Y( v ); }
  friend bool operator<( Y const & a, Y const & b ) { verif_yield(); return a.get() < b.get(); }
  friend bool operator>( Y const & a, Y const & b ) { return b < a; }
  friend bool operator==( Y const & a, Y const & b ) { verif_yield(); return a.get() == b.get(); }
  friend bool operator!=( Y const & a, Y const & b ) { return !( a == b ); }
  friend std::ostream & operator<<( std::ostream & o, Y const & y ) { return o << y.get(); }
private:
  int m_lo, m_hi;
};
namespace lv
{
template<> struct Elem< Y > { static Y make( int v ) { return Y( v ); } static int value( Y const & y ) { return y.get(); } };
}
template< typename T > int num( T const & t ) { if constexpr( std::is_same< T, Y >::value ) return t.get(); else if constexpr( std::is_arithmetic< T >::value ) return int( t ); else return val( t ); }

using AtomicPolicies = std::tuple< RAJA::builtin_atomic, RAJA::omp_atomic, RAJA::auto_atomic >;
template< typename F > void withPolicy( int k, F && f )
{ if( k == 0 ) f( RAJA::builtin_atomic {} ); else if( k == 1 ) f( RAJA::omp_atomic {} ); else f( RAJA::auto_atomic {} ); }

struct Op { int kind = 0; long row = 0, pos = 0; int policy = 0; std::vector< int > vals; std::vector< long > cols; };

/// Appends to shared arrays, and arbitrary modifications of arrays only one thread uses, both through a view.
template< typename T, typename INDEX >
void append( Src & s )
{
  int const nThreads = s.range( 2, 4 ), nShared = s.range( 1, 3 ), nArrays = nShared + nThreads;
  std::vector< std::vector< Op > > progs( nThreads );
  std::vector< std::vector< int > > initial( nArrays ), mine( nThreads );
  std::vector< long > need( nArrays, 0 );
  std::vector< std::vector< std::vector< int > > > appended( nShared, std::vector< std::vector< int > >( nThreads ) );
  int next = 1;
  for( int i = 0; i < nArrays; ++i ) for( int k = s.range( 0, 3 ); k > 0; --k ) initial[ i ].push_back( next++ );
  // The shared arrays are not adjacent.
  std::vector< int > where( nArrays );
  for( int i = 0; i < nArrays; ++i ) where[ i ] = i;
  for( int i = nArrays - 1; i > 0; --i ) std::swap( where[ i ], where[ s.range( 0, i ) ] );
  int appends = 0, users = 0;
  for( int t = 0; t < nThreads; ++t )
  {
    int const row = nShared + t;
    mine[ t ] = initial[ row ];
    long biggest = mine[ t ].size();
    bool any = false;
    std::size_t n = 0;
    while( s.more( n, 12, 5 ) )
    {
      Span sp( s ); ++n;
      Op o;
      o.kind = s.weighted( { 6, 1, 1, 1, 1, 1, 0.5 } );
      o.policy = s.range( 0, 2 );
      auto & m = mine[ t ];
      if( o.kind == 0 ) { o.row = s.range( 0, nShared - 1 ); o.vals = { next++ }; appended[ o.row ][ t ].push_back( o.vals[ 0 ] ); ++appends; any = true; }
      else
      {
        o.row = row;
        if( o.kind == 3 || o.kind == 4 ) for( int k = s.range( 0, 4 ); k > 0; --k ) o.vals.push_back( next++ );
        else o.vals = { next++ };
        o.pos = s.range< long >( 0, m.size() );
        if( o.kind == 1 || o.kind == 6 ) m.push_back( o.vals[ 0 ] );
        else if( o.kind == 2 ) m.insert( m.begin() + o.pos, o.vals[ 0 ] );
        else if( o.kind == 3 ) m.insert( m.begin() + o.pos, o.vals.begin(), o.vals.end() );
        else if( o.kind == 4 ) m.insert( m.end(), o.vals.begin(), o.vals.end() );
        else if( o.kind == 5 )
        {
          if( m.empty() ) continue;
          if( o.pos == long( m.size() ) ) --o.pos;
          long const len = s.range< long >( 1, m.size() - o.pos );
          o.vals = { int( len ) };
          m.erase( m.begin() + o.pos, m.begin() + o.pos + len );
        }
      }
      biggest = std::max< long >( biggest, mine[ t ].size() );
      LOG( s, "thread " << t << ": op " << o.kind << " row " << o.row << " pos " << o.pos << " n " << o.vals.size() );
      progs[ t ].push_back( o );
    }
    need[ row ] = biggest;
    users += any;
  }
  for( int i = 0; i < nShared; ++i ) { need[ i ] = initial[ i ].size(); for( auto const & a : appended[ i ] ) need[ i ] += a.size(); }
  LvArray::ArrayOfArrays< T, INDEX, MallocBuffer > a( nArrays );
  int const slack = s.range( 0, 1 );
  for( int i = 0; i < nArrays; ++i )
  {
    a.setCapacityOfArray( where[ i ], need[ i ] + slack );
    for( int v : initial[ i ] ) a.emplaceBack( where[ i ], mk< T >( v ) );
  }
  auto const view = a.toView();
  auto const exec = [&]( int t )
  {
    for( Op const & o : progs[ t ] )
    {
      INDEX const r = where[ o.row ];
      std::vector< T > vs; for( int v : o.vals ) vs.push_back( mk< T >( v ) );
      switch( o.kind )
      {
        case 0: withPolicy( o.policy, [&]( auto p ) { if( o.pos % 2 ) view.template emplaceBackAtomic< decltype( p ) >( r, vs[ 0 ] ); else view.template emplaceBackAtomic< decltype( p ) >( r, mk< T >( o.vals[ 0 ] ) ); } ); break;
        case 1: view.emplaceBack( r, vs[ 0 ] ); break;
        case 2: view.emplace( r, INDEX( o.pos ), vs[ 0 ] ); break;
        case 3: view.insertIntoArray( r, INDEX( o.pos ), vs.begin(), vs.end() ); break;
        case 4: view.appendToArray( r, vs.begin(), vs.end() ); break;
        case 5: view.eraseFromArray( r, INDEX( o.pos ), INDEX( o.vals[ 0 ] ) ); break;
        default: withPolicy( o.policy, [&]( auto p ) { view.template emplaceBackAtomic< decltype( p ) >( r, vs[ 0 ] ); } );
      }
    }
  };
  std::vector< sched::Program > ps;
  for( int t = 0; t < nThreads; ++t ) ps.push_back( [&exec, t]() { exec( t ); } );
  sched::run( s, ps );
  LOG( s, "switches " << sched::g_switches );
  for( int i = 0; i < nArrays; ++i )
  {
    std::vector< int > got;
    for( auto const & x : a[ where[ i ] ] ) got.push_back( num( x ) );
    CHECK_EQ( got.size(), std::size_t( a.sizeOfArray( where[ i ] ) ) );
    if( i >= nShared ) { CHECK_EQ( got.size(), mine[ i - nShared ].size(), "array of thread ", i - nShared ); for( std::size_t k = 0; k < got.size(); ++k ) CHECK_EQ( got[ k ], mine[ i - nShared ][ k ], "array of thread ", i - nShared, " at ", k ); continue; }
    CHECK_EQ( long( got.size() ), need[ i ], "size of shared array ", i );
    for( std::size_t k = 0; k < initial[ i ].size(); ++k ) CHECK_EQ( got[ k ], initial[ i ][ k ], "shared array ", i, " at ", k );
    std::multiset< int > rest( got.begin() + initial[ i ].size(), got.end() );
    for( int t = 0; t < nThreads; ++t )
    {
      // Each append appears once, those of one thread in the order in which it made them.
      auto it = got.begin() + initial[ i ].size();
      for( int v : appended[ i ][ t ] )
      {
        CHECK_EQ( rest.count( v ), 1u, "value ", v, " appended by thread ", t, " to shared array ", i );
        auto const at = std::find( it, got.end(), v );
        CHECK( at != got.end(), "thread ", t, "'s appends are out of order" );
        it = at + 1;
      }
    }
  }
  if( users > 1 && appends > 3 && sched::g_switches > 4 ) s.nontrivial();
}

/// Additions to shared rows, and modifications of rows only one thread uses.
template< typename T, typename COL, typename INDEX >
void addRow( Src & s )
{
  int const nThreads = s.range( 2, 4 ), nShared = s.range( 1, 2 ), nRows = nShared + nThreads;
  // A wide row makes addToRow choose the binary search.
  bool const wide = s.boolean( 0.15 );
  long const nCols = wide ? 90 : s.range< long >( 1, 12 );
  using Row = std::map< long, int >;
  std::vector< Row > model( nRows );
  for( auto & r : model ) for( long c = 0; c < nCols; ++c ) if( s.boolean( wide ? 0.9 : 0.6 ) ) r[ c ] = s.range( 0, 5 );
  std::vector< int > where( nRows );
  for( int i = 0; i < nRows; ++i ) where[ i ] = i;
  for( int i = nRows - 1; i > 0; --i ) std::swap( where[ i ], where[ s.range( 0, i ) ] );
  LvArray::CRSMatrix< T, COL, INDEX, MallocBuffer > a( nRows, nCols, INDEX( 0 ) );
  for( int i = 0; i < nRows; ++i )
  {
    a.setRowCapacity( where[ i ], i < nShared ? model[ i ].size() : nCols );
    for( auto const & p : model[ i ] ) a.insertNonZero( where[ i ], COL( p.first ), T( p.second ) );
  }
  std::vector< std::vector< Op > > progs( nThreads );
  int shared = 0, users = 0;
  for( int t = 0; t < nThreads; ++t )
  {
    bool any = false;
    std::size_t n = 0;
    while( s.more( n, 8, 4 ) )
    {
      Span sp( s ); ++n;
      Op o;
      o.kind = s.weighted( { 3, 2, 2, 2, 1, 1, 1, 1, 1 } );
      o.policy = s.range( 0, 2 );
      o.row = o.kind <= 3 ? s.range( 0, nShared - 1 ) : nShared + t;
      auto & m = model[ o.row ];
      std::vector< long > cols;
      for( long c = 0; c < nCols; ++c )
      {
        bool const have = m.count( c );
        // addToRow needs columns that are there; insert and remove take any.
        if( ( have || o.kind == 5 || o.kind == 6 ) && s.boolean( wide ? 0.1 : 0.6 ) ) cols.push_back( c );
      }
      if( o.kind == 3 ) for( int k = int( cols.size() ) - 1; k > 0; --k ) std::swap( cols[ k ], cols[ s.range( 0, k ) ] );
      if( ( o.kind == 7 || o.kind == 8 ) && cols.size() > 1 ) cols.resize( 1 );
      if( o.kind == 7 ) cols = { s.range< long >( 0, nCols - 1 ) };
      o.cols = cols;
      for( std::size_t k = 0; k < cols.size(); ++k ) o.vals.push_back( s.range( 1, 9 ) );
      for( std::size_t k = 0; k < cols.size(); ++k )
      {
        if( o.kind <= 4 ) m[ cols[ k ] ] += o.vals[ k ];
        else if( o.kind == 5 || o.kind == 7 ) m.insert( { cols[ k ], o.vals[ k ] } );
        else m.erase( cols[ k ] );
      }
      if( o.kind <= 3 && !cols.empty() ) { ++shared; any = true; }
      LOG( s, "thread " << t << ": op " << o.kind << " row " << o.row << " columns " << cols.size() );
      progs[ t ].push_back( o );
    }
    users += any;
  }
  auto const view = a.toView();
  auto const fixedView = a.toViewConstSizes();
  bool const useFixed = s.boolean();
  auto const exec = [&]( int t )
  {
    for( Op const & o : progs[ t ] )
    {
      INDEX const r = where[ o.row ], n = INDEX( o.cols.size() );
      std::vector< COL > cs; std::vector< T > vs;
      for( long c : o.cols ) cs.push_back( COL( c ) );
      for( int v : o.vals ) vs.push_back( T( v ) );
      auto add = [&]( auto const & x, auto p )
      {
        using P = decltype( p );
        switch( o.kind )
        {
          case 0: case 4: x.template addToRow< P >( r, cs.data(), vs.data(), n ); break;
          case 1: x.template addToRowBinarySearch< P >( r, cs.data(), vs.data(), n ); break;
          case 2: x.template addToRowLinearSearch< P >( r, cs.data(), vs.data(), n ); break;
          default: x.template addToRowBinarySearchUnsorted< P >( r, cs.data(), vs.data(), n );
        }
      };
      switch( o.kind )
      {
        case 4: if( useFixed ) add( fixedView, RAJA::seq_atomic {} ); else add( view, RAJA::seq_atomic {} ); break;
        case 5: view.insertNonZeros( r, cs.data(), vs.data(), n ); break;
        case 6: view.removeNonZeros( r, cs.data(), n ); break;
        case 7: view.insertNonZero( r, cs[ 0 ], vs[ 0 ] ); break;
        case 8: if( n > 0 ) view.removeNonZero( r, cs[ 0 ] ); break;
        default: withPolicy( o.policy, [&]( auto p ) { if( useFixed ) add( fixedView, p ); else add( view, p ); } );
      }
    }
  };
  std::vector< sched::Program > ps;
  for( int t = 0; t < nThreads; ++t ) ps.push_back( [&exec, t]() { exec( t ); } );
  sched::run( s, ps );
  for( int i = 0; i < nRows; ++i )
  {
    CHECK_EQ( std::size_t( a.numNonZeros( where[ i ] ) ), model[ i ].size(), "row ", i );
    long k = 0;
    for( auto const & p : model[ i ] )
    {
      CHECK_EQ( long( a.getColumns( where[ i ] )[ k ] ), p.first, "row ", i );
      CHECK_EQ( num( a.getEntries( where[ i ] )[ k ] ), p.second, "row ", i, " column ", p.first );
      ++k;
    }
  }
  if( users > 1 && shared > 2 && sched::g_switches > 4 ) s.nontrivial();
}

/// Sets of an ArrayOfSets or rows of a SparsityPattern, each used by one thread.
template< typename T, typename INDEX, bool PATTERN >
void sets( Src & s )
{
  int const nThreads = s.range( 2, 4 ), each = s.range( 1, 2 ), nSets = nThreads * each, domain = s.range( 2, 14 );
  using A = std::conditional_t< PATTERN, LvArray::SparsityPattern< T, INDEX, MallocBuffer >, LvArray::ArrayOfSets< T, INDEX, MallocBuffer > >;
  A a;
  if constexpr( PATTERN ) a.resize( nSets, domain, 0 ); else a.resize( nSets, 0 );
  std::vector< std::set< int > > model( nSets );
  for( int i = 0; i < nSets; ++i )
  {
    if constexpr( PATTERN ) a.setRowCapacity( i, domain ); else a.setCapacityOfSet( i, domain );
    for( int v = 0; v < domain; ++v ) if( s.boolean() ) { model[ i ].insert( v ); if constexpr( PATTERN ) a.insertNonZero( i, T( v ) ); else a.insertIntoSet( i, mk< T >( v ) ); }
  }
  struct SOp : Op { long result = 0; };
  std::vector< std::vector< SOp > > progs( nThreads );
  int effective = 0;
  for( int t = 0; t < nThreads; ++t )
  {
    std::size_t n = 0;
    while( s.more( n, 8, 4 ) )
    {
      Span sp( s ); ++n;
      SOp o;
      o.kind = s.range( 0, 4 );
      // Neighbouring rows belong to different threads.
      o.row = t + nThreads * s.range( 0, each - 1 );
      auto & m = model[ o.row ];
      std::set< int > vs;
      if( o.kind < 3 ) vs.insert( s.range( 0, domain - 1 ) ); else for( int v = 0; v < domain; ++v ) if( s.boolean() ) vs.insert( v );
      o.vals.assign( vs.begin(), vs.end() );
      for( int v : vs )
      {
        if( o.kind == 0 || o.kind == 3 ) o.result += m.insert( v ).second;
        else if( o.kind == 1 || o.kind == 4 ) o.result += m.erase( v );
        else o.result += m.count( v );
      }
      effective += o.result > 0;
      LOG( s, "thread " << t << ": op " << o.kind << " set " << o.row << " values " << vs.size() );
      progs[ t ].push_back( o );
    }
  }
  auto const view = a.toView();
  auto const exec = [&]( int t )
  {
    for( SOp const & o : progs[ t ] )
    {
      std::vector< T > vs; for( int v : o.vals ) vs.push_back( mk< T >( v ) );
      std::sort( vs.begin(), vs.end() );
      INDEX const r = o.row;
      long got;
      if constexpr( PATTERN )
      {
        if( o.kind == 0 ) got = view.insertNonZero( r, vs[ 0 ] ); else if( o.kind == 1 ) got = view.removeNonZero( r, vs[ 0 ] ); else if( o.kind == 2 ) got = !view.empty( r, vs[ 0 ] );
        else if( o.kind == 3 ) got = view.insertNonZeros( r, vs.begin(), vs.end() ); else got = view.removeNonZeros( r, vs.begin(), vs.end() );
      }
      else
      {
        if( o.kind == 0 ) got = view.insertIntoSet( r, vs[ 0 ] ); else if( o.kind == 1 ) got = view.removeFromSet( r, vs[ 0 ] ); else if( o.kind == 2 ) got = view.contains( r, vs[ 0 ] );
        else if( o.kind == 3 ) got = view.insertIntoSet( r, vs.begin(), vs.end() ); else got = view.removeFromSet( r, vs.begin(), vs.end() );
      }
      CHECK_EQ( got, o.result, "op ", o.kind, " set ", o.row );
    }
  };
  std::vector< sched::Program > ps;
  for( int t = 0; t < nThreads; ++t ) ps.push_back( [&exec, t]() { exec( t ); } );
  sched::run( s, ps );
  for( int i = 0; i < nSets; ++i )
  {
    std::vector< int > got;
    if constexpr( PATTERN ) { for( auto const & x : a.getColumns( i ) ) got.push_back( num( x ) ); } else { for( auto const & x : a[ i ] ) got.push_back( num( x ) ); }
    CHECK_EQ( got.size(), model[ i ].size(), "set ", i );
    if( std::is_same< T, std::string >::value ) std::sort( got.begin(), got.end() );
    std::size_t k = 0;
    for( int v : model[ i ] ) CHECK_EQ( got[ k++ ], v, "set ", i );
  }
  if( effective > 2 && sched::g_switches > 4 ) s.nontrivial();
}

/// The operations that launch a kernel, with a parallel policy.
template< typename T >
void kernels( Src & s )
{
  UseSchedule use( s );
  using P = RAJA::omp_parallel_for_exec;
  std::size_t n = 0;
  int work = 0;
  while( s.more( n, 3, 2 ) )
  {
    Span sp( s ); ++n;
    int const kind = s.range( 0, 4 );
    LOG( s, "kernel " << kind );
    if( kind == 0 )
    {
      // Arrays.
      LvArray::Array< T, 2, RAJA::PERM_JI, int, MallocBuffer > a( s.range( 0, 5 ), s.range( 0, 5 ) ), b( a );
      int next = 1;
      for( T & x : b ) x = mk< T >( next++ );
      a.toView().template setValues< P >( mk< T >( 42 ) );
      for( T const & x : a ) CHECK_EQ( num( x ), 42 );
      a.toView().template setValues< P >( b.toViewConst() );
      next = 1;
      for( T const & x : a ) CHECK_EQ( num( x ), next++ );
      work += a.size() > 3;
    }
    else if( kind == 1 )
    {
      // Transpose a map: every element appends itself to each of its nodes.
      int const elems = s.range( 0, 8 ), nodes = s.range( 1, 4 );
      std::vector< std::vector< int > > toNodes( elems ), expected( nodes );
      std::vector< int > counts( nodes, 0 );
      for( int e = 0; e < elems; ++e ) for( int k = s.range( 0, 3 ); k > 0; --k ) { toNodes[ e ].push_back( s.range( 0, nodes - 1 ) ); ++counts[ toNodes[ e ].back() ]; expected[ toNodes[ e ].back() ].push_back( e ); }
      LvArray::ArrayOfArrays< T, int, MallocBuffer > m;
      m.template resizeFromCapacities< P >( nodes, counts.data() );
      auto const v = m.toView();
      RAJA::forall< P >( RAJA::TypedRangeSegment< int >( 0, elems ), [v, &toNodes]( int const e ) { for( int x : toNodes[ e ] ) v.template emplaceBackAtomic< RAJA::builtin_atomic >( x, mk< T >( e ) ); } );
      for( int i = 0; i < nodes; ++i )
      {
        std::vector< int > got; for( auto const & x : m[ i ] ) got.push_back( num( x ) );
        std::sort( got.begin(), got.end() );
        CHECK( got == expected[ i ], "node ", i, " has ", got.size(), " elements" );
      }
      work += elems > 3;
    }
    else
    {
      // Assemble a matrix: a pattern whose rows are built in parallel, assimilated, then added to from many elements.
      int const rows = s.range( 1, 6 ), cols = s.range( 1, 8 ), elems = s.range( 0, 8 );
      std::vector< std::vector< int > > er( elems ), ec( elems );
      std::map< std::pair< int, int >, int > expected;
      std::vector< int > caps( rows, 0 );
      for( int e = 0; e < elems; ++e )
      {
        for( int r = 0; r < rows; ++r ) if( s.boolean() ) er[ e ].push_back( r );
        for( int c = 0; c < cols; ++c ) if( s.boolean() ) ec[ e ].push_back( c );
        for( int r : er[ e ] ) for( int c : ec[ e ] ) expected[ { r, c } ] += e + 1;
      }
      for( auto const & p : expected ) ++caps[ p.first.first ];
      LvArray::SparsityPattern< int, int, MallocBuffer > sp;
      sp.template resizeFromRowCapacities< P >( rows, cols, caps.data() );
      auto const pv = sp.toView();
      RAJA::forall< P >( RAJA::TypedRangeSegment< int >( 0, rows ), [&, pv]( int const r )
      { for( int e = 0; e < elems; ++e ) if( std::count( er[ e ].begin(), er[ e ].end(), r ) ) { if( e % 2 ) pv.insertNonZeros( r, ec[ e ].begin(), ec[ e ].end() ); else for( int c : ec[ e ] ) pv.insertNonZero( r, c ); } } );
      LvArray::CRSMatrix< T, int, int, MallocBuffer > m;
      if( kind == 4 )
      {
        // Something to replace.
        m.resize( s.range( 0, 4 ), 3, 3 );
        for( int r = 0; r < m.numRows(); ++r ) for( int c = 0; c < 3; ++c ) if( s.boolean() ) m.insertNonZero( r, c, mk< T >( 5 ) );
      }
      m.template assimilate< P >( std::move( sp ) );
      for( int r = 0; r < rows; ++r ) for( int k = 0; k < m.numNonZeros( r ); ++k ) CHECK_EQ( num( m.getEntries( r )[ k ] ), num( T() ) );
      auto const mv = m.toViewConstSizes();
      mv.template setValues< P >( mk< T >( 3 ) );
      if constexpr( !std::is_same< T, std::string >::value )
      {
        RAJA::forall< P >( RAJA::TypedRangeSegment< int >( 0, elems ), [&, mv]( int const e )
        {
          std::vector< T > vals( ec[ e ].size(), T( e + 1 ) );
          for( int r : er[ e ] ) mv.template addToRow< RAJA::auto_atomic >( r, ec[ e ].data(), vals.data(), int( vals.size() ) );
        } );
      }
      std::size_t nnz = 0;
      for( int r = 0; r < rows; ++r ) for( int k = 0; k < m.numNonZeros( r ); ++k )
      {
        auto const it = expected.find( { r, m.getColumns( r )[ k ] } );
        CHECK( it != expected.end(), "row ", r );
        CHECK_EQ( num( m.getEntries( r )[ k ] ), 3 + ( std::is_same< T, std::string >::value ? 0 : it->second ), "row ", r, " column ", it->first.second );
        ++nnz;
      }
      CHECK_EQ( nnz, expected.size() );
      work += elems > 3;
    }
  }
  if( work > 0 ) s.nontrivial();
}

#if defined( VERIF_SCHED )
#define Q( sched, race ) sched
#else
#define Q( sched, race ) race
#endif
static char const * const rule1 = "two or more threads append to a shared array at least four times in all, with more than four thread switches";
static char const * const rule2 = "two or more threads add to shared rows, with more than four thread switches";
static char const * const rule3 = "at least three operations on distinct sets changed or found something, with more than four thread switches";
static char const * const rule4 = "a kernel over at least four items";
static Registrar r1( "conc.append.int", append< int, int >, Q( 4000, 1500 ), rule1 );
static Registrar r2( "conc.append.string", append< std::string, long >, Q( 2000, 1000 ), rule1, false, false );
static Registrar r4( "conc.addrow.double", addRow< double, int, long >, Q( 2000, 1500 ), rule2 );
static Registrar r5( "conc.addrow.int", addRow< int, long, int >, Q( 1000, 1000 ), rule2, false, false );
static Registrar r6( "conc.addrow.float", addRow< float, unsigned, long long >, Q( 1000, 1000 ), rule2, false, false );
static Registrar r8( "conc.sets.int", sets< int, long, false >, Q( 2000, 1000 ), rule3 );
static Registrar r9( "conc.sets.pattern", sets< int, int, true >, Q( 2000, 1000 ), rule3 );
static Registrar r10( "conc.sets.string", sets< std::string, int, false >, Q( 1000, 500 ), rule3, false, false );
static Registrar r12( "conc.kernels.int", kernels< int >, Q( 2000, 700 ), rule4 );
static Registrar r13( "conc.kernels.double", kernels< double >, Q( 1000, 700 ), rule4, false, false );
static Registrar r14( "conc.kernels.string", kernels< std::string >, Q( 1000, 500 ), rule4, false, false );
#if defined( VERIF_SCHED )
static Registrar r3( "conc.append.yield", append< Y, int >, 6000, rule1 );
static Registrar r7( "conc.addrow.yield", addRow< Y, int, int >, 6000, rule2 );
static Registrar r11( "conc.sets.yield", sets< Y, int, false >, 4000, rule3 );
static Registrar r15( "conc.kernels.yield", kernels< Y >, 3000, rule4 );
#endif
