// Reading of names, terminals and character classes; what was read is handed to `seen...` for inspection.
#include "CharClass.cpp"
#include "ATN.cpp"
#include "Util.cpp"
namespace verif
{
using namespace Centaurus;
void seen_name(const std::wstring& s);
void seen_node(int type, const std::wstring& name, const void *literal, int id);
void seen_class(const void *cc);
void make(const std::wstring& t) { Stream s(t); }
void name(Stream& s) { Identifier i(s); seen_name(i.str()); }
template<class T> void node(Stream& s) { ATNNode<T> n(s); seen_node(static_cast<int>(n.type()), n.get_invoke().str(), &n.get_literal(), n.get_id()); }
template<class T> void cclass(Stream& s) { CharClass<T> c(s); seen_class(&c); }
template void node<char>(Stream&); template void node<unsigned char>(Stream&); template void node<wchar_t>(Stream&);
template void cclass<char>(Stream&); template void cclass<unsigned char>(Stream&); template void cclass<wchar_t>(Stream&);
}
