// Connects the engine to the library's error handler.
#include "pbt.hpp"
#include "system.hpp"
namespace pbt
{
void installLibraryErrorHandler()
{ LvArray::system::setErrorHandler( []() { reportLibraryErrorAndExit(); } ); }
}
