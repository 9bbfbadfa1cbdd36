// Block loops written directly against the vector class, as users of vec.hpp write them.
#include "inst.hpp"
namespace sim { namespace {
#define IN(a, k) (static_cast<const T *>((a).in[k]))
template <typename T> struct V {
    typedef nova::vec<T> vec;
    static void zero(Args & a) { vec v; v.clear(); for (unsigned i = 0; i != a.n; i += vec::size) v.store(O(a) + i); }
    static void set(Args & a) { vec v; v.set_vec(Sc<T>::s(a, 0)); for (unsigned i = 0; i != a.n; i += vec::size) v.store(O(a) + i); }
    static void slope(Args & a) {
        vec v; const T inc = v.set_slope(Sc<T>::s(a, 0), Sc<T>::sl(a, 0));
        for (unsigned i = 0; i != a.n; i += vec::size) { v.store(O(a) + i); v += vec(inc); }
    }
    static void exp(Args & a) {
        T f = Sc<T>::s(a, 0); vec v;         // set_exp returns the value that follows the vector
        for (unsigned i = 0; i != a.n; i += vec::size) { f = v.set_exp(f, Sc<T>::sl(a, 0)); v.store(O(a) + i); }
    }
    // one sample at a time through the lowest lane: must read a single sample
    static void first(Args & a) { for (unsigned i = 0; i != a.n; ++i) { vec v; v.load_first(IN(a, 0) + i); O(a)[i] = v.get(0); } }
    static void adds(Args & a) { for (unsigned i = 0; i != a.n; i += vec::size) { vec v; v.load(O(a) + i); v += vec(Sc<T>::s(a, 0)); v.store(O(a) + i); } }
    static void addv(Args & a) { for (unsigned i = 0; i != a.n; i += vec::size) { vec v, w; v.load(O(a) + i); w.load(IN(a, 0) + i); v += w; v.store(O(a) + i); } }
};
#define DEF(NAME, OP) \
template <typename T> struct A_##NAME { \
    typedef nova::vec<T> vec; \
    static void vs(Args & a) { const T s = Sc<T>::s(a, 1); for (unsigned i = 0; i != a.n; i += vec::size) { vec v; v.load(IN(a, 0) + i); if (i & vec::size) v = v OP s; else v OP##= vec(s); v.store(O(a) + i); } } \
    template <class X> static auto left(T s, const X & v, int) -> decltype(vec(s OP v)) { return s OP v; }      /* not every back end has it */ \
    template <class X> static vec left(T s, const X & v, long) { return vec(s) OP v; } \
    static void sv(Args & a) { const T s = Sc<T>::s(a, 0); for (unsigned i = 0; i != a.n; i += vec::size) { vec v; v.load(IN(a, 1) + i); v = left(s, v, 0); v.store(O(a) + i); } } \
};
DEF(plus, +) DEF(minus, -) DEF(times, *) DEF(over, /)
#define VE(nm, k, cls, fn) { nm, k, Lim<T>::f64, V_VEC, cls, 0, Lim<T>::vs, sizeof(T), sizeof(T), V<T>::fn },
#define AR(nm) { #nm, "vs", Lim<T>::f64, V_VEC, K_ELEM, 0, Lim<T>::vs, sizeof(T), sizeof(T), A_##nm<T>::vs }, { #nm, "sv", Lim<T>::f64, V_VEC, K_ELEM, 0, Lim<T>::vs, sizeof(T), sizeof(T), A_##nm<T>::sv },
template <typename T> struct Tab { static const Op ops[]; static const unsigned n; };
template <typename T> const Op Tab<T>::ops[] = {
    VE("zero", "", K_FILL, zero) VE("set", "s", K_FILL, set) VE("set_slope", "r", K_FILL, slope) VE("set_exp", "r", K_FILL, exp)
    { "first_copy", "v", Lim<T>::f64, V_VEC, K_COPY, 0, 1, sizeof(T), sizeof(T), V<T>::first },
    VE("add", "s", K_ADD, adds) VE("add", "v", K_ADD, addv)
    AR(plus) AR(minus) AR(times) AR(over)
};
template <typename T> const unsigned Tab<T>::n = sizeof(Tab<T>::ops) / sizeof(Op);
const Reg r32(Tab<float>::ops, Tab<float>::n);
const Reg r64(Tab<double>::ops, Tab<double>::n);
} }
