// The functions exported to Python, type-checked and lowered with the asmjit stand-in in tu/stub.
#include "../pydll/PyCentaurus.cpp"
