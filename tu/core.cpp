// The whole library that needs no asmjit, in one translation unit, with its templates instantiated.
#include "CharClass.cpp"
#include "ATN.cpp"
#include "CompositeATN.cpp"
#include "Grammar.cpp"
#include "Util.cpp"
#include "Input.hpp"
#include "Charset.hpp"
#include "Stage1Runner.hpp"
#include "Stage2RunnerNonRecursive.hpp"
#include "Stage3RunnerNonRecursive.hpp"
namespace Centaurus {
template class NFATransition<char>; template class NFABaseState<char, int>; template class NFABaseState<char, IndexVector>; template class NFA<char>;
template class NFADepartureSet<char>; template class NFADepartureSetFactory<char>;
template class DFAState<char>; template class DFA<char>;
template class ATNTransition<char>;
template class CATNNode<char>; template class CATNMachine<char>; template class CATNDeparture<char>; template class CATNDepartureSetFactory<char>;
template class LDFAState<char>; template class LookaheadDFA<char>;
}
namespace verif {
using namespace Centaurus;
void runners(const char *f, IParser *p, void *ctx, std::atomic<int> *c, ReductionListener l, TransferListener t)
{
    Stage1Runner a(f, p, 8, 2, false, true); Stage2Runner b(f, 8, 2, 1, ctx, c); Stage3Runner d(f, 8, 2, 1, ctx, c);
    b.register_listener(l); d.register_python_listener(l, t);
    BaseRunner *r[] = {&a, &b, &d};
    for (auto x : r) x->start();
    for (auto x : r) x->wait();
    a.feed_callback();
}
void inputs(const char *f) { Input i; MemoryInput m(f, 3); MappedFileInput k(f); }
void grammars(const char *f) { Grammar<char> g(f); Grammar<char> h(std::move(g)); g.verify(); }
void nodes(const ATNNode<char>& n, Stream& s, std::vector<ATNTransition<char>>&& t) { ATNNode<char> a, b(ATNNodeType::Blank), c(s), d(n), e(std::move(d)), f(n, std::move(t)); a.add_transition(1, 2); }
}
// the values of the enumeration, for the analyses that build or read nodes
extern const int verif_atn_types[5];
const int verif_atn_types[5] = {int(Centaurus::ATNNodeType::Blank), int(Centaurus::ATNNodeType::Nonterminal), int(Centaurus::ATNNodeType::LiteralTerminal),
    int(Centaurus::ATNNodeType::RegularTerminal), int(Centaurus::ATNNodeType::WhiteSpace)};
