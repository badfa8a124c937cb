// Instantiates every operation of the class algebra from the current sources.
#include "CharClass.cpp"
namespace verif {
template<typename T> struct Force {
    typedef Centaurus::CharClass<T> C; typedef Centaurus::Range<T> R;
    static void use(C& a, const C& b, const R& r, T ch, Centaurus::Stream& s, C *out)
    {
        out[0] = a | b; out[1] = a & b; out[2] = ~a; out[3] = a | r; a |= b; a |= r; a.append(r);
        auto d = a.diff_and_int(b); out[4] = d[0];
        out[5] = C(s);
        out[6] = a.includes(ch) || a.includes(r) || a.overlaps(b) || a == b ? a : b;
    }
};
template struct Force<char>; template struct Force<unsigned char>; template struct Force<wchar_t>;
}
