// Helpers shared by the harnesses that use the library's error handler.
#pragma once
#include "pbt.hpp"
#include "system.hpp"
#include <iostream>
namespace lv
{
struct LibError {};
/// Swallows what the library prints while it reports an expected error.
struct NullBuf : std::streambuf { int overflow( int c ) override { return c; } std::streamsize xsputn( char const *, std::streamsize n ) override { return n; } };

/// Run f with an error handler that throws; true when the library reported an error. Only for code that is not noexcept.
template< typename F > bool reportsError( F && f )
{
  static NullBuf nb;
  auto * const oldC = std::cout.rdbuf( &nb );
  auto * const oldE = std::cerr.rdbuf( &nb );
  LvArray::system::setErrorHandler( []() { throw LibError {}; } );
  bool r = false;
  auto restore = [&]() { pbt::installLibraryErrorHandler(); std::cout.rdbuf( oldC ); std::cerr.rdbuf( oldE ); };
  try { f(); }
  catch( LibError const & ) { r = true; }
  catch( ... ) { restore(); throw; }
  restore();
  return r;
}
}
