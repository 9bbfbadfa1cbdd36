#include "inst.hpp"
#include "simd_mix.hpp"
#include "simd_pan.hpp"
#define UNROLL_N 32
#include "nary.inc"
namespace sim { namespace {
DEF4(mix) DEF4(sum)
#define R4(NAME, T, A, B, C, D, KS) \
    { #NAME, KS, Lim<T>::f64, V_SCALAR, K_ELEM, 0, 1, sizeof(T), sizeof(T), Q_##NAME<T, A, B, C, D>::scalar }, \
    { #NAME, KS, Lim<T>::f64, V_SIMD, K_ELEM, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, Q_##NAME<T, A, B, C, D>::simd }, \
    { #NAME, KS, Lim<T>::f64, V_UNROLL, K_ELEM, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, Q_##NAME<T, A, B, C, D>::unroll },
#define RT(NAME, T) R4(NAME,T,'v','s','v','s',"vsvs") R4(NAME,T,'v','r','v','r',"vrvr") R4(NAME,T,'v','v','v','v',"vvvv") R4(NAME,T,'v','s','v','r',"vsvr") \
    R4(NAME,T,'v','r','v','s',"vrvs") R4(NAME,T,'v','v','v','s',"vvvs") R4(NAME,T,'r','v','s','v',"rvsv") R4(NAME,T,'v','v','r','r',"vvrr")
#define RN(NAME) RT(NAME, float) RT(NAME, double)

template <typename T> struct Pan {
    static const T * in(Args & a) { return static_cast<const T *>(a.in[0]); }
    static void c_scalar(Args & a) { nova::pan2_vec(O(a), O1(a), in(a), Sc<T>::s(a, 1), Sc<T>::s(a, 2), a.n); }
    static void c_simd(Args & a)   { nova::pan2_vec_simd(O(a), O1(a), in(a), Sc<T>::s(a, 1), Sc<T>::s(a, 2), a.n); }
    static void c_unroll(Args & a) { nova::pan2_vec_simd<UNROLL_N>(O(a), O1(a), in(a), Sc<T>::s(a, 1), Sc<T>::s(a, 2)); }
    static void r_scalar(Args & a) { nova::pan2_vec(O(a), O1(a), in(a), Sc<T>::s(a, 1), Sc<T>::sl(a, 1), Sc<T>::s(a, 2), Sc<T>::sl(a, 2), a.n); }
    static void r_simd(Args & a)   { nova::pan2_vec_simd(O(a), O1(a), in(a), Sc<T>::s(a, 1), Sc<T>::sl(a, 1), Sc<T>::s(a, 2), Sc<T>::sl(a, 2), a.n); }
    static void r_unroll(Args & a) { nova::pan2_vec_simd<UNROLL_N>(O(a), O1(a), in(a), Sc<T>::s(a, 1), Sc<T>::sl(a, 1), Sc<T>::s(a, 2), Sc<T>::sl(a, 2)); }
};
#define RP(T) \
    { "pan2", "vss", Lim<T>::f64, V_SCALAR, K_PAN, 0, 1, sizeof(T), sizeof(T), Pan<T>::c_scalar }, \
    { "pan2", "vss", Lim<T>::f64, V_SIMD, K_PAN, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, Pan<T>::c_simd }, \
    { "pan2", "vss", Lim<T>::f64, V_UNROLL, K_PAN, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, Pan<T>::c_unroll }, \
    { "pan2", "vrr", Lim<T>::f64, V_SCALAR, K_PAN, 0, 1, sizeof(T), sizeof(T), Pan<T>::r_scalar }, \
    { "pan2", "vrr", Lim<T>::f64, V_SIMD, K_PAN, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, Pan<T>::r_simd }, \
    { "pan2", "vrr", Lim<T>::f64, V_UNROLL, K_PAN, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, Pan<T>::r_unroll },
const Op ops[] = { RN(mix) RN(sum) RP(float) RP(double) };
const Reg reg(ops, sizeof(ops) / sizeof(ops[0]));
} }
