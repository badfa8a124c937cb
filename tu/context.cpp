// The C++ session object, lowered with the asmjit stand-in in tu/stub.
#include <asmjit/asmjit.h>
#include "Context.hpp"
namespace Centaurus { template class Context<char>; }
