// Rule registration and every view of the rules, for the three character types.
#include "CharClass.cpp"
#include "ATN.cpp"
#include "CompositeATN.cpp"
#include "Grammar.cpp"
#include "Util.cpp"
namespace verif {
using namespace Centaurus;
template<class T> void views(const char *f, const std::string& s, const Identifier& id, EnumMachinesCallback cb)
{
    Grammar<T> g(f); Grammar<T> h; h.parse(s);
    g.get_machine_num(); g.get_machine_id(id); g.lookup_id(0); g.get_root_id(); g.enum_machines(cb); g[id].get_unique_id();
}
void all(const char *f, const std::string& s, const Identifier& id, EnumMachinesCallback cb) { views<char>(f, s, id, cb); views<unsigned char>(f, s, id, cb); views<wchar_t>(f, s, id, cb); }
}
