// Stand-in for the asmjit headers, which are not in the repository: declarations only, enough to type-check the library's interface.
#pragma once
#include <cstddef>
#include <cstdint>
namespace asmjit {
struct Any { template<typename T> operator T() const; };
struct Label { Label(); };
struct Data128 {};
struct X86Gp {}; struct X86Xmm {};
struct X86Mem { template<typename... A> X86Mem(A...); };
struct Zone { Zone(size_t); };
struct ConstPool { ConstPool(Zone*); int add(const void*, size_t, size_t&); };
struct Logger {}; struct ErrorHandler {};
struct CodeInfo {};
struct CodeHolder { template<typename... A> int init(A...); };
struct X86Assembler {
    Label newLabel();
    template<typename... A> int movdqa(A...);
    template<typename... A> int embedConstPool(A&&...);
};
struct JitRuntime { template<typename F> int add(F*, CodeHolder*); CodeInfo getCodeInfo(); };
}
