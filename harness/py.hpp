// An embedded Python interpreter for the harnesses of src/python, and arguments to call the methods with.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>
#include "pbt.hpp"

extern "C" PyObject * PyInit_pylvarray( void );

namespace py
{
using pbt::Src;

/// Owns a reference.
class Obj
{
public:
  Obj() = default;
  explicit Obj( PyObject * p ): m_p( p ) {}
  Obj( Obj const & o ): m_p( o.m_p ) { Py_XINCREF( m_p ); }
  Obj( Obj && o ) noexcept: m_p( o.m_p ) { o.m_p = nullptr; }
  Obj & operator=( Obj o ) { std::swap( m_p, o.m_p ); return *this; }
  ~Obj() { Py_XDECREF( m_p ); }
  PyObject * get() const { return m_p; }
  PyObject * release() { PyObject * const p = m_p; m_p = nullptr; return p; }
  explicit operator bool() const { return m_p != nullptr; }
private:
  PyObject * m_p = nullptr;
};
inline Obj borrow( PyObject * p ) { Py_XINCREF( p ); return Obj( p ); }

inline std::string text( PyObject * o )
{
  if( o == nullptr ) return "NULL";
  Obj const s( PyObject_Str( o ) );
  if( !s ) { PyErr_Clear(); return "?"; }
  char const * const c = PyUnicode_AsUTF8( s.get() );
  if( c == nullptr ) { PyErr_Clear(); return "?"; }
  return c;
}
inline std::string reprOf( PyObject * o )
{
  Obj const s( PyObject_Repr( o ) );
  if( !s ) { PyErr_Clear(); return "?"; }
  return text( s.get() );
}

/// The outcome of a call into Python.
struct Res
{
  Obj value;
  std::string exc;  ///< Name of the type of the exception, empty if there was none.
  std::string msg;
  bool raised() const { return !exc.empty(); }
};
/// Collects the outcome of a call that returned value; a value and an exception, or neither, break the protocol.
inline Res outcome( PyObject * value, char const * what )
{
  Res r { Obj( value ), {}, {} };
  if( PyErr_Occurred() )
  {
    PyObject * t, * v, * tb;
    PyErr_Fetch( &t, &v, &tb );
    Obj const ot( t ), ov( v ), otb( tb );
    r.exc = reinterpret_cast< PyTypeObject * >( t )->tp_name;
    r.msg = text( v );
    if( value ) pbt::fail( pbt::cat( what, " returned a value and raised ", r.exc, ": ", r.msg.substr( 0, 200 ) ) );
    // What the interpreter makes of a method that returns a value with an exception set, or nullptr without one.
    if( r.exc == "SystemError" ) pbt::fail( pbt::cat( what, ": SystemError: ", r.msg.substr( 0, 300 ) ) );
  }
  else if( !value ) pbt::fail( pbt::cat( what, " returned nullptr without raising an exception" ) );
  return r;
}
/// The outcome of a call that returns a negative number on error.
inline Res outcomeInt( int rv, char const * what )
{
  CHECK( rv == 0 || rv == -1, what, " returns ", rv );
  if( rv == 0 ) { Py_INCREF( Py_None ); return outcome( Py_None, what ); }
  return outcome( nullptr, what );
}
inline Res callTuple( Obj const & o, char const * name, Obj const & args )
{
  Obj const m( PyObject_GetAttrString( o.get(), name ) );
  if( !m ) return outcome( nullptr, name );
  return outcome( PyObject_CallObject( m.get(), args.get() ), name );
}
inline Obj tuple() { return Obj( PyTuple_New( 0 ) ); }
template< typename ... A > Obj tuple( A const & ... a ) { return Obj( PyTuple_Pack( sizeof...( a ), a.get() ... ) ); }
template< typename ... A > Res call( Obj const & o, char const * name, A const & ... a ) { return callTuple( o, name, tuple( a ... ) ); }

inline Obj num( long long v ) { return Obj( PyLong_FromLongLong( v ) ); }
inline Obj num( double v ) { return Obj( PyFloat_FromDouble( v ) ); }
inline Obj str( char const * v ) { return Obj( PyUnicode_FromString( v ) ); }
inline Obj none() { return borrow( Py_None ); }
inline long long toInt( Obj const & o )
{
  long long const v = PyLong_AsLongLong( o.get() );
  if( v == -1 && PyErr_Occurred() ) { PyErr_Clear(); pbt::fail( "expected an int, got " + text( o.get() ) ); }
  return v;
}
inline Obj attr( Obj const & o, char const * name ) { Obj r( PyObject_GetAttrString( o.get(), name ) ); if( !r ) { PyErr_Clear(); pbt::fail( pbt::cat( "no attribute ", name ) ); } return r; }

inline Obj g_numpy, g_scipy;
inline void prepare()
{
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  PyImport_AppendInittab( "pylvarray", PyInit_pylvarray );
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig( &pre );
  pre.allocator = PYMEM_ALLOCATOR_MALLOC; // so that the sanitizer sees every object
  pre.utf8_mode = 1;
  if( PyStatus_Exception( Py_PreInitialize( &pre ) ) ) { std::fprintf( stderr, "Py_PreInitialize\n" ); std::exit( 2 ); }
  PyConfig cfg;
  PyConfig_InitIsolatedConfig( &cfg );
  cfg.install_signal_handlers = 0;
  cfg.write_bytecode = 0;
  if( PyStatus_Exception( Py_InitializeFromConfig( &cfg ) ) ) { std::fprintf( stderr, "Py_Initialize\n" ); std::exit( 2 ); }
  PyConfig_Clear( &cfg );
  PyRun_SimpleString( "import sys; sys.path.insert( 0, '" VERIF_PYTHON_SITE "' )" );
  g_numpy = Obj( PyImport_ImportModule( "numpy" ) );
  g_scipy = Obj( PyImport_ImportModule( "scipy.sparse" ) );
  if( !g_numpy || !g_scipy || _import_array() < 0 ) { PyErr_Print(); std::exit( 2 ); }
}
struct UsePython { UsePython() { pbt::g_prepare = prepare; } };
inline UsePython const g_usePython;

/// The module under test.
inline Obj module()
{
  Res r = outcome( PyImport_ImportModule( "pylvarray" ), "import pylvarray" );
  CHECK( !r.raised(), r.exc, r.msg );
  return r.value;
}

// -------------------------------------------------------------------------------------------------
template< typename T > char const * npName()
{
  if constexpr( std::is_same_v< T, bool > ) return "?";
  else if constexpr( std::is_same_v< T, float > ) return "f";
  else if constexpr( std::is_same_v< T, double > ) return "d";
  else if constexpr( std::is_same_v< T, long double > ) return "g";
  else if constexpr( std::is_same_v< T, signed char > || std::is_same_v< T, char > ) return "b";
  else if constexpr( std::is_same_v< T, unsigned char > ) return "B";
  else if constexpr( std::is_same_v< T, short > ) return "h";
  else if constexpr( std::is_same_v< T, unsigned short > ) return "H";
  else if constexpr( std::is_same_v< T, int > ) return "i";
  else if constexpr( std::is_same_v< T, unsigned int > ) return "I";
  else if constexpr( std::is_same_v< T, long > ) return "l";
  else if constexpr( std::is_same_v< T, unsigned long > ) return "L";
  else if constexpr( std::is_same_v< T, long long > ) return "q";
  else return "Q";
}
/// The character code of the type of a NumPy array.
inline std::string typeChar( PyObject * array ) { Obj const d( PyObject_GetAttrString( array, "dtype" ) ); return text( Obj( PyObject_GetAttrString( d.get(), "char" ) ).get() ); }

/// An argument that a method should convert to a one dimensional array of T.
template< typename T > struct Input
{
  Obj obj;
  enum { OK, REJECT, EITHER } expect = OK;  ///< EITHER: it may be converted or rejected.
  std::vector< T > values;                  ///< What it converts to.
  std::string desc;
};

inline PyArrayObject * arr( Obj const & o ) { return reinterpret_cast< PyArrayObject * >( o.get() ); }
inline Obj npArray( Obj const & list, char const * dtype )
{
  Obj r( PyObject_CallMethod( g_numpy.get(), "array", "Os", list.get(), dtype ) );
  if( !r ) { PyErr_Print(); std::abort(); }
  return r;
}
inline bool canCast( std::string const & from, std::string const & to )
{
  Obj const r( PyObject_CallMethod( g_numpy.get(), "can_cast", "sss", from.c_str(), to.c_str(), "safe" ) );
  if( !r ) { PyErr_Print(); std::abort(); }
  return PyObject_IsTrue( r.get() ) == 1;
}
/// Python lists of the values; small enough that every numeric type can represent them (but for the sign).
template< typename T > Obj listOf( std::vector< T > const & v )
{
  Obj l( PyList_New( 0 ) );
  for( T x : v )
  {
    Obj const o = std::is_floating_point_v< T > ? num( static_cast< double >( x ) ) : num( static_cast< long long >( x ) );
    PyList_Append( l.get(), o.get() );
  }
  return l;
}
template< typename T > Input< T > genInput( Src & s, std::vector< T > const & want )
{
  Input< T > in;
  in.values = want;
  std::string const dst = npName< T >();
  static char const * const types[] = { "?", "b", "B", "h", "H", "i", "I", "l", "L", "q", "Q", "f", "d", "g", "e", "D", "F" };
  switch( s.weighted( { 24, 5, 2, 1.5, 0.8, 0.8, 1.2, 0.5, 0.5 } ) )
  {
    case 0:
      in.obj = npArray( listOf( want ), dst.c_str() ); in.desc = "ndarray of the type"; break;
    case 1:
    {
      // Another type: the values must be representable in both.
      std::string const src = types[ s.choose( 16 ) ];
      std::vector< long long > v;
      for( T x : want ) v.push_back( std::llabs( static_cast< long long >( x ) ) % ( src == "?" || dst == "?" ? 2 : 100 ) );
      in.values.clear();
      for( long long x : v ) in.values.push_back( static_cast< T >( x ) );
      in.obj = npArray( listOf( v ), src.c_str() );
      in.expect = canCast( src, dst ) ? Input< T >::OK : Input< T >::REJECT;
      in.desc = "ndarray of type " + src; break;
    }
    case 2:
    {
      in.obj = listOf( want );
      // What NumPy makes of a list of ints or floats.
      std::string const src = want.empty() || std::is_floating_point_v< T > ? "d" : "l";
      in.expect = src == dst || canCast( src, dst ) ? Input< T >::OK : Input< T >::REJECT;
      in.desc = "list"; break;
    }
    case 3:
    {
      // A zero dimensional value.
      T const v = want.empty() ? T( 1 ) : want[ 0 ];
      in.values = { v };
      Obj const one = npArray( listOf( in.values ), dst.c_str() );
      in.obj = Obj( PyObject_CallMethod( one.get(), "__getitem__", "i", 0 ) );
      in.desc = "scalar of the type"; break;
    }
    case 4:
    {
      std::vector< T > twice;
      for( T x : want ) { twice.push_back( x ); twice.push_back( T( 0 ) ); }
      Obj const a = npArray( listOf( twice ), dst.c_str() );
      Obj const sl( PySlice_New( nullptr, nullptr, num( 2LL ).get() ) );
      in.obj = Obj( PyObject_GetItem( a.get(), sl.get() ) );
      in.expect = Input< T >::EITHER; in.desc = "strided ndarray"; break;
    }
    case 5:
    {
      in.obj = npArray( listOf( want ), dst.c_str() );
      Obj const r( PyObject_CallMethod( in.obj.get(), "setflags", "O", Py_False ) );
      in.expect = Input< T >::EITHER; in.desc = "read only ndarray"; break;
    }
    case 6:
    {
      Obj const a = npArray( listOf( want ), dst.c_str() );
      in.obj = Obj( PyObject_CallMethod( a.get(), "reshape", "ii", 1, static_cast< int >( want.size() ) ) );
      in.expect = Input< T >::REJECT; in.desc = "two dimensional ndarray"; break;
    }
    case 7:
    {
      Obj const a = npArray( listOf( want ), dst.c_str() );
      Obj const dt( PyObject_CallMethod( attr( a, "dtype" ).get(), "newbyteorder", "s", ">" ) );
      in.obj = Obj( PyObject_CallMethod( a.get(), "astype", "O", dt.get() ) );
      in.expect = Input< T >::EITHER; in.desc = "big endian ndarray"; break;
    }
    default:
    {
      std::size_t const k = s.choose( 3 );
      in.obj = k == 0 ? str( "foobar" ) : k == 1 ? none() : k == 2 ? module() : Obj( PyDict_New() );
      in.expect = Input< T >::REJECT; in.desc = "not numeric"; break;
    }
  }
  if( !in.obj ) { PyErr_Print(); std::abort(); }
  return in;
}

/// Two values that a method may return.
inline void checkView( Obj const & view, char const * type, std::vector< long > const & shape, bool wantWriteable, void const * data, char const * what )
{
  CHECK( PyArray_Check( view.get() ), what, " is not a NumPy array: ", text( reinterpret_cast< PyObject * >( Py_TYPE( view.get() ) ) ) );
  CHECK_EQ( typeChar( view.get() ), std::string( type ), what );
  CHECK_EQ( PyArray_NDIM( arr( view ) ), static_cast< int >( shape.size() ), what );
  long n = 1;
  for( std::size_t k = 0; k < shape.size(); ++k ) { CHECK_EQ( static_cast< long >( PyArray_DIM( arr( view ), static_cast< int >( k ) ) ), shape[ k ], what, " dimension ", k ); n *= shape[ k ]; }
  if( n == 0 ) return;
  CHECK_EQ( static_cast< void const * >( PyArray_DATA( arr( view ) ) ), data, what, " does not share the memory" );
  CHECK_EQ( PyArray_ISWRITEABLE( arr( view ) ) != 0, wantWriteable, what, " writeable" );
  CHECK( PyArray_ISALIGNED( arr( view ) ) && PyArray_ISNOTSWAPPED( arr( view ) ), what );
}
/// The element of a one dimensional view, read through Python.
inline Obj item( Obj const & view, long i ) { Obj r( PySequence_GetItem( view.get(), i ) ); if( !r ) { PyErr_Clear(); pbt::fail( "cannot read an element of a view" ); } return r; }
template< typename T > T toValue( Obj const & o )
{
  if constexpr( std::is_floating_point_v< T > ) { double const v = PyFloat_AsDouble( o.get() ); if( PyErr_Occurred() ) { PyErr_Clear(); pbt::fail( "not a number" ); } return static_cast< T >( v ); }
  else { Obj const i( PyNumber_Long( o.get() ) ); if( !i ) { PyErr_Clear(); pbt::fail( "not a number" ); } return static_cast< T >( toInt( i ) ); }
}
/// Write through Python; the exception, if any.
template< typename T > Res setItem( Obj const & view, Obj const & key, T v )
{
  Obj const x = std::is_floating_point_v< T > ? num( static_cast< double >( v ) ) : num( static_cast< long long >( v ) );
  return outcomeInt( PyObject_SetItem( view.get(), key.get(), x.get() ), "setitem" );
}
template< typename T > T genVal( Src & s )
{
  if constexpr( std::is_same_v< T, bool > ) return s.boolean();
  else if constexpr( std::is_floating_point_v< T > ) return static_cast< T >( s.range< int >( 0, 400 ) - 200 ) / 4;
  else if constexpr( std::is_unsigned_v< T > ) return static_cast< T >( s.range< int >( 0, 120 ) );
  else return static_cast< T >( s.range< int >( 0, 200 ) - 100 );
}
template< typename T > std::vector< T > genVals( Src & s, std::size_t maxLen )
{
  std::vector< T > v( s.length( maxLen ) );
  for( std::size_t i = 0; i < v.size(); ++i ) v[ i ] = genVal< T >( s );
  return v;
}
template< typename T > std::string show( std::vector< T > const & v )
{ std::ostringstream o; o << "["; for( std::size_t i = 0; i < v.size(); ++i ) o << ( i ? "," : "" ) << +v[ i ]; o << "]"; return o.str(); }
template<> inline std::string show( std::vector< bool > const & v )
{ std::ostringstream o; o << "["; for( std::size_t i = 0; i < v.size(); ++i ) o << ( i ? "," : "" ) << v[ i ]; o << "]"; return o.str(); }

/// The access levels.
struct Levels
{
  int current = 0;
  bool canWrite() const { return current >= 1; }
  bool canResize() const { return current >= 2; }
};
/// set_access_level and get_access_level, which every class has; withSpace: it takes a space.
inline void levelOp( Src & s, Obj const & o, Levels & lev, bool withSpace )
{
  static char const * const names[] = { "READ_ONLY", "MODIFIABLE", "RESIZEABLE" };
  Obj const mod = module();
  switch( s.weighted( { 8, 1, 1, 1 } ) )
  {
    case 0:
    {
      int const l = 2 - static_cast< int >( s.weighted( { 5, 1, 1 } ) );
      LOG( s, "set_access_level( " << names[ l ] << " )" );
      Obj const v = attr( mod, names[ l ] );
      CHECK_EQ( toInt( v ), static_cast< long long >( l ) );
      Res const r = withSpace && s.boolean() ? call( o, "set_access_level", v, attr( mod, "CPU" ) ) : call( o, "set_access_level", v );
      CHECK( !r.raised(), r.exc, r.msg );
      lev.current = l;
      break;
    }
    case 1:
      if( withSpace )
      {
        long long const cpu = toInt( attr( mod, "CPU" ) );
        long long const space = cpu + 1 + s.range< int >( 0, 5 );
        LOG( s, "set_access_level( space " << space << " )" );
        Res const r = call( o, "set_access_level", attr( mod, names[ 2 - s.choose( 2 ) ] ), num( space ) );
        CHECK( r.raised(), "moving to the space ", space );
        s.label( "rejected" );
      }
      break;
    case 2:
    {
      LOG( s, "set_access_level of a wrong type" );
      Res const r = s.boolean() ? call( o, "set_access_level", str( "x" ) ) : call( o, "set_access_level" );
      CHECK( r.raised() );
      s.label( "rejected" );
      break;
    }
    default: break;
  }
  Res const g = call( o, "get_access_level" );
  CHECK( !g.raised(), g.exc );
  CHECK_EQ( toInt( g.value ), static_cast< long long >( lev.current ) );
}
/// Mostly the cases start with a container that may be resized.
inline void initialLevel( Src & s, Obj const & o, Levels & lev )
{
  if( !s.boolean( 0.85 ) ) return;
  LOG( s, "set_access_level( RESIZEABLE )" );
  Res const r = call( o, "set_access_level", attr( module(), "RESIZEABLE" ) );
  CHECK( !r.raised(), r.exc, r.msg );
  lev.current = 2;
}
/// dtype and repr, which every class has.
template< typename T > void checkCommon( Obj const & o, char const * typeName, char const * dtype )
{
  Obj const mod = module();
  CHECK( reinterpret_cast< PyObject * >( Py_TYPE( o.get() ) ) == attr( mod, typeName ).get(), "not a ", typeName );
  Res const rp = outcome( PyObject_Repr( o.get() ), "repr" );
  CHECK( !rp.raised() && text( rp.value.get() ).find( typeName ) != std::string::npos, rp.exc, text( rp.value.get() ) );
  Obj const t = attr( o, "dtype" );
  if( dtype )
  {
    Obj const d( PyObject_CallMethod( g_numpy.get(), "dtype", "O", t.get() ) );
    CHECK( d, "dtype is not a NumPy type" );
    CHECK_EQ( text( attr( d, "char" ).get() ), std::string( dtype ), "dtype" );
  }
}
/// Whether the call should have had an effect; checks that it raised exactly when it must.
template< typename T > bool accepted( Src & s, Res const & r, bool valid, Input< T > const & in, char const * what )
{
  if( !valid || in.expect == Input< T >::REJECT )
  {
    CHECK( r.raised(), what, " accepted an invalid argument or was not permitted: ", in.desc );
    s.label( "rejected" );
    return false;
  }
  if( in.expect == Input< T >::EITHER ) { s.label( r.raised() ? "either: raised" : "either: accepted" ); return !r.raised(); }
  CHECK( !r.raised(), what, " of ", in.desc, " raised ", r.exc, ": ", r.msg.substr( 0, 300 ) );
  return true;
}
/// The references to an argument must be the same after the call.
struct RefGuard
{
  explicit RefGuard( Obj const & o ): m_o( o ), m_n( Py_REFCNT( o.get() ) ) {}
  void done( Res & r, char const * what ) { r.msg.shrink_to_fit(); CHECK_EQ( static_cast< long >( Py_REFCNT( m_o.get() ) ), static_cast< long >( m_n ), what, " references to the argument" ); }
  Obj const & m_o;
  Py_ssize_t m_n;
};
} // namespace py
