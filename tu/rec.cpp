// The recursive stage 2 and 3 runners (they share class names with the non-recursive ones).
#include "CharClass.cpp"
#include "Stage1Runner.hpp"
#include "Exception.hpp"
#include "Stage2Runner.hpp"
#include "Stage3Runner.hpp"
namespace verif {
using namespace Centaurus;
void runners(const char *f, IParser *p, void *ctx, std::atomic<int> *c, ReductionListener l, TransferListener t)
{
    Stage1Runner a(f, p, 8, 2, false, true); Stage2Runner b(f, 8, 2, 1, ctx, c); Stage3Runner d(f, 8, 2, 1, ctx, c);
    b.register_listener(l); d.register_python_listener(l, t);
    BaseRunner *r[] = {&a, &b, &d};
    for (auto x : r) x->start();
    for (auto x : r) x->wait();
    a.feed_callback();
}
}
