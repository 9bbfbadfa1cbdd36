#include "inst.hpp"
#include "simd_ternary_arithmetic.hpp"
#include "simd_mix.hpp"
#define UNROLL_N 32
#include "nary.inc"
namespace sim { namespace {
DEF3(clip) DEF3(muladd) DEF3(ampmod) DEF3(sum)
#define R3(NAME, T, A, B, C, KS) \
    { #NAME, KS, Lim<T>::f64, V_SCALAR, K_ELEM, 0, 1, sizeof(T), sizeof(T), T_##NAME<T, A, B, C>::scalar }, \
    { #NAME, KS, Lim<T>::f64, V_SIMD, K_ELEM, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, T_##NAME<T, A, B, C>::simd }, \
    { #NAME, KS, Lim<T>::f64, V_UNROLL, K_ELEM, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, T_##NAME<T, A, B, C>::unroll },
#define RT(NAME, T) R3(NAME,T,'v','v','v',"vvv") R3(NAME,T,'v','v','s',"vvs") R3(NAME,T,'v','v','r',"vvr") R3(NAME,T,'v','s','v',"vsv") \
    R3(NAME,T,'v','r','v',"vrv") R3(NAME,T,'s','v','v',"svv") R3(NAME,T,'r','v','v',"rvv") R3(NAME,T,'v','s','s',"vss") R3(NAME,T,'v','r','r',"vrr") \
    R3(NAME,T,'v','s','r',"vsr") R3(NAME,T,'r','r','r',"rrr") R3(NAME,T,'s','s','v',"ssv")
#define RN(NAME) RT(NAME, float) RT(NAME, double)
const Op ops[] = { RN(clip) RN(muladd) RN(ampmod) RN(sum) };
const Reg reg(ops, sizeof(ops) / sizeof(ops[0]));
} }
