// Compile-time unrolled forms of representative operations at several lengths.
#include "inst.hpp"
#include "simd_unary_arithmetic.hpp"
#include "simd_binary_arithmetic.hpp"
#include "simd_ternary_arithmetic.hpp"
#include "simd_mix.hpp"
#include "simd_pan.hpp"
#include "simd_memory.hpp"
#include "softclip.hpp"
namespace sim { namespace {
#define G(K, i) Mk<K, T>::get(a, i)
#define IN(a) (static_cast<const T *>((a).in[0]))
#define S(i) (Sc<T>::s(a, i))
#define SL(i) (Sc<T>::sl(a, i))
#define U1(NAME) template <typename T, int N> struct U_##NAME { static void run(Args & a) { nova::NAME##_vec_simd<N>(O(a), IN(a)); } };
#define U2(NAME) template <typename T, int N, char A, char B> struct U_##NAME { static void run(Args & a) { nova::NAME##_vec_simd<N>(O(a), G(A,0), G(B,1)); } };
#define U3(NAME) template <typename T, int N, char A, char B, char C> struct U_##NAME { static void run(Args & a) { nova::NAME##_vec_simd<N>(O(a), G(A,0), G(B,1), G(C,2)); } };
#define U4(NAME) template <typename T, int N, char A, char B, char C, char D> struct U_##NAME { static void run(Args & a) { nova::NAME##_vec_simd<N>(O(a), G(A,0), G(B,1), G(C,2), G(D,3)); } };
U1(square) U1(abs) U1(softclip) U2(plus) U2(times) U2(max) U3(clip) U3(muladd) U4(mix)
template <typename T, int N> struct M {
    static void zero(Args & a) { nova::zerovec_simd<N>(O(a)); }
    static void zero_na(Args & a) { nova::zerovec_na_simd<N>(O(a)); }
    static void set(Args & a) { nova::setvec_simd<N>(O(a), S(0)); }
    static void set_na(Args & a) { nova::setvec_na_simd<N>(O(a), S(0)); }
    static void copy(Args & a) { nova::copyvec_simd<N>(O(a), IN(a)); }
    static void na(Args & a) { nova::copyvec_na_simd<N>(O(a), IN(a)); }
    static void an(Args & a) { nova::copyvec_an_simd<N>(O(a), IN(a)); }
    static void nn(Args & a) { nova::copyvec_nn_simd<N>(O(a), IN(a)); }
    static void addv(Args & a) { nova::addvec_simd<N>(O(a), IN(a)); }
    static void adds(Args & a) { nova::addvec_simd<N>(O(a), S(0)); }
    static void addr(Args & a) { nova::addvec_simd<N>(O(a), S(0), SL(0)); }
    static void pan(Args & a) { nova::pan2_vec_simd<N>(O(a), O1(a), IN(a), S(1), S(2)); }
    static void panr(Args & a) { nova::pan2_vec_simd<N>(O(a), O1(a), IN(a), S(1), SL(1), S(2), SL(2)); }
};
#define E(nm, k, cls, oa, ia, ...) { nm, k, Lim<T>::f64, V_UNROLL, cls, N, N, (oa) ? Lim<T>::al : sizeof(T), (ia) ? Lim<T>::al : sizeof(T), __VA_ARGS__ },
template <typename T, int N> struct Tab { static const Op ops[]; static const unsigned n; };
template <typename T, int N> const Op Tab<T, N>::ops[] = {
    E("square", "v", K_ELEM, 1, 1, U_square<T, N>::run) E("abs", "v", K_ELEM, 1, 1, U_abs<T, N>::run) E("softclip", "v", K_ELEM, 1, 1, U_softclip<T, N>::run)
    E("plus", "vv", K_ELEM, 1, 1, U_plus<T, N, 'v', 'v'>::run) E("plus", "vs", K_ELEM, 1, 1, U_plus<T, N, 'v', 's'>::run) E("plus", "vr", K_ELEM, 1, 1, U_plus<T, N, 'v', 'r'>::run)
    E("times", "vr", K_ELEM, 1, 1, U_times<T, N, 'v', 'r'>::run) E("times", "rv", K_ELEM, 1, 1, U_times<T, N, 'r', 'v'>::run) E("max", "vs", K_ELEM, 1, 1, U_max<T, N, 'v', 's'>::run)
    E("clip", "vss", K_ELEM, 1, 1, U_clip<T, N, 'v', 's', 's'>::run) E("clip", "vrr", K_ELEM, 1, 1, U_clip<T, N, 'v', 'r', 'r'>::run)
    E("muladd", "vvv", K_ELEM, 1, 1, U_muladd<T, N, 'v', 'v', 'v'>::run) E("muladd", "vrr", K_ELEM, 1, 1, U_muladd<T, N, 'v', 'r', 'r'>::run)
    E("mix", "vsvs", K_ELEM, 1, 1, U_mix<T, N, 'v', 's', 'v', 's'>::run) E("mix", "vrvr", K_ELEM, 1, 1, U_mix<T, N, 'v', 'r', 'v', 'r'>::run)
    E("zero", "", K_FILL, 1, 1, M<T, N>::zero) E("zero_na", "", K_FILL, 0, 0, M<T, N>::zero_na) E("set", "s", K_FILL, 1, 1, M<T, N>::set) E("set_na", "s", K_FILL, 0, 0, M<T, N>::set_na)
    E("copy", "v", K_COPY, 1, 1, M<T, N>::copy) E("copy_na", "v", K_COPY, 1, 0, M<T, N>::na) E("copy_an", "v", K_COPY, 0, 1, M<T, N>::an) E("copy_nn", "v", K_COPY, 0, 0, M<T, N>::nn)
    E("add", "v", K_ADD, 1, 1, M<T, N>::addv) E("add", "s", K_ADD, 1, 1, M<T, N>::adds) E("add", "r", K_ADD, 1, 1, M<T, N>::addr)
    E("pan2", "vss", K_PAN, 1, 1, M<T, N>::pan) E("pan2", "vrr", K_PAN, 1, 1, M<T, N>::panr)
};
template <typename T, int N> const unsigned Tab<T, N>::n = sizeof(Tab<T, N>::ops) / sizeof(Op);
#define R(N) const Reg f##N(Tab<float, N>::ops, Tab<float, N>::n), d##N(Tab<double, N>::ops, Tab<double, N>::n);
R(8) R(64) R(256)
} }
