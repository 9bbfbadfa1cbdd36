// BINARY_LIST(X): name, vec-level expression; BINARY_LIST_NV(X): block functions only
#ifndef BINARY_LIST_NV
#define BINARY_LIST_NV(X)
#endif
#include "nary.inc"
namespace sim { namespace {
#define X(NAME, EXPR) DEF2(NAME) DEFV2(NAME, EXPR)
BINARY_LIST(X)
#undef X
BINARY_LIST_NV(DEF2)
#define P(...) __VA_ARGS__
#define BT(N, T, A, B) B_##N<T, A, B>
#define R2(NAME, T, A, B, KS) \
    { #NAME, KS, Lim<T>::f64, V_SCALAR, K_ELEM, 0, 1, sizeof(T), sizeof(T), B_##NAME<T, A, B>::scalar }, \
    { #NAME, KS, Lim<T>::f64, V_SIMD, K_ELEM, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, B_##NAME<T, A, B>::simd }, \
    { #NAME, KS, Lim<T>::f64, V_UNROLL, K_ELEM, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, B_##NAME<T, A, B>::unroll },
#define RT(NAME, T) R2(NAME,T,'v','v',"vv") R2(NAME,T,'v','s',"vs") R2(NAME,T,'s','v',"sv") R2(NAME,T,'v','r',"vr") R2(NAME,T,'r','v',"rv") \
    R2(NAME,T,'s','s',"ss") R2(NAME,T,'r','r',"rr") R2(NAME,T,'s','r',"sr") R2(NAME,T,'r','s',"rs")
#define RTV(NAME, T) RT(NAME, T) \
    { #NAME, "vv", Lim<T>::f64, V_VEC, K_ELEM, 0, Lim<T>::vs, sizeof(T), sizeof(T), BV_##NAME<T>::vecapi },
#define X(NAME, EXPR) RTV(NAME, float) RTV(NAME, double)
#define Y(NAME) RT(NAME, float) RT(NAME, double)
const Op ops[] = { BINARY_LIST(X) BINARY_LIST_NV(Y) };
const Reg reg(ops, sizeof(ops) / sizeof(ops[0]));
} }
