// Everything a reader can do with a Stream, made visible to the analysis.
#include "Stream.hpp"
#include "Identifier.hpp"
namespace verif
{
wchar_t get(Centaurus::Stream& s) { return s.get(); }
wchar_t peek(Centaurus::Stream& s) { return s.peek(); }
wchar_t peekn(Centaurus::Stream& s, int n) { return s.peek(n); }
void discard(Centaurus::Stream& s) { s.discard(); }
void discardn(Centaurus::Stream& s, int n) { s.discard(n); }
wchar_t skip(Centaurus::Stream& s) { return s.skip_whitespace(); }
wchar_t after(Centaurus::Stream& s) { return s.after_whitespace(); }
Centaurus::Stream::Sentry sentry(Centaurus::Stream& s) { return s.sentry(); }
std::wstring cut(Centaurus::Stream& s, const Centaurus::Stream::Sentry& e) { return s.cut(e); }
Centaurus::StreamException unexpected(Centaurus::Stream& s, wchar_t c) { return s.unexpected(c); }
}
namespace verif
{
void make(const std::wstring& t, std::wstring&& u) { Centaurus::Stream s(t); Centaurus::Stream r(std::move(u)); }
}
