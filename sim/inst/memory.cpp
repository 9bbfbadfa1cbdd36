#include "inst.hpp"
#include "simd_memory.hpp"
#define N 32
namespace sim { namespace {
#define IN(a) (static_cast<const T *>((a).in[0]))
#define S0(a) (Sc<T>::s(a, 0))
#define SL0(a) (Sc<T>::sl(a, 0))
template <typename T> struct M {
    static void zero(Args & a) { nova::zerovec(O(a), a.n); }
    static void zero_simd(Args & a) { nova::zerovec_simd(O(a), a.n); }
    static void zero_unroll(Args & a) { nova::zerovec_simd<N>(O(a)); }
    static void zero_na(Args & a) { nova::zerovec_na_simd(O(a), a.n); }
    static void zero_na_unroll(Args & a) { nova::zerovec_na_simd<N>(O(a)); }
    static void set(Args & a) { nova::setvec(O(a), S0(a), a.n); }
    static void set_simd(Args & a) { nova::setvec_simd(O(a), S0(a), a.n); }
    static void set_unroll(Args & a) { nova::setvec_simd<N>(O(a), S0(a)); }
    static void set_na(Args & a) { nova::setvec_na_simd(O(a), S0(a), a.n); }
    static void set_na_unroll(Args & a) { nova::setvec_na_simd<N>(O(a), S0(a)); }
    static void slope(Args & a) { nova::set_slope_vec(O(a), S0(a), SL0(a), a.n); }
    static void slope_simd(Args & a) { nova::set_slope_vec_simd(O(a), S0(a), SL0(a), a.n); }
    static void exp(Args & a) { nova::set_exp_vec(O(a), S0(a), SL0(a), a.n); }
    static void exp_simd(Args & a) { nova::set_exp_vec_simd(O(a), S0(a), SL0(a), a.n); }
    static void copy(Args & a) { nova::copyvec(O(a), IN(a), a.n); }
    static void copy_simd(Args & a) { nova::copyvec_simd(O(a), IN(a), a.n); }
    static void copy_unroll(Args & a) { nova::copyvec_simd<N>(O(a), IN(a)); }
    static void aa(Args & a) { nova::copyvec_aa_simd(O(a), IN(a), a.n); }
    static void na(Args & a) { nova::copyvec_na_simd(O(a), IN(a), a.n); }
    static void an(Args & a) { nova::copyvec_an_simd(O(a), IN(a), a.n); }
    static void nn(Args & a) { nova::copyvec_nn_simd(O(a), IN(a), a.n); }
    static void aa_u(Args & a) { nova::copyvec_aa_simd<N>(O(a), IN(a)); }
    static void na_u(Args & a) { nova::copyvec_na_simd<N>(O(a), IN(a)); }
    static void an_u(Args & a) { nova::copyvec_an_simd<N>(O(a), IN(a)); }
    static void nn_u(Args & a) { nova::copyvec_nn_simd<N>(O(a), IN(a)); }
    static void addv(Args & a) { nova::addvec(O(a), IN(a), a.n); }
    static void addv_simd(Args & a) { nova::addvec_simd(O(a), IN(a), a.n); }
    static void addv_unroll(Args & a) { nova::addvec_simd<N>(O(a), IN(a)); }
    static void adds(Args & a) { nova::addvec(O(a), S0(a), a.n); }
    static void adds_simd(Args & a) { nova::addvec_simd(O(a), S0(a), a.n); }
    static void adds_unroll(Args & a) { nova::addvec_simd<N>(O(a), S0(a)); }
#ifndef NO_ADDVEC_RAMP
    static void addr(Args & a) { nova::addvec(O(a), S0(a), SL0(a), a.n); }
    static void addr_simd(Args & a) { nova::addvec_simd(O(a), S0(a), SL0(a), a.n); }
    static void addr_unroll(Args & a) { nova::addvec_simd<N>(O(a), S0(a), SL0(a)); }
#endif
    // vec-class streaming store: same contract as an aligned copy
    static void stream_copy(Args & a) {
        for (unsigned i = 0; i != a.n; i += nova::vec<T>::size) { nova::vec<T> v; v.load_aligned(IN(a) + i); v.store_aligned_stream(O(a) + i); }
    }
    // element access of the vec class: same contract as an unaligned copy
    static void lane_copy(Args & a) {
        for (unsigned i = 0; i != a.n; i += nova::vec<T>::size) {
            nova::vec<T> v; v.clear();
            for (int l = 0; l != nova::vec<T>::size; ++l) v.set(l, IN(a)[i + l]);
            for (int l = 0; l != nova::vec<T>::size; ++l) O(a)[i + l] = v.get(l);
        }
    }
};
#define SC(nm, k, cls, fn) { nm, k, Lim<T>::f64, V_SCALAR, cls, 0, 1, sizeof(T), sizeof(T), M<T>::fn },
#define SI(nm, k, cls, oa, ia, fn) { nm, k, Lim<T>::f64, V_SIMD, cls, 0, Lim<T>::loop, (oa) ? Lim<T>::al : sizeof(T), (ia) ? Lim<T>::al : sizeof(T), M<T>::fn },
#define UN(nm, k, cls, oa, ia, fn) { nm, k, Lim<T>::f64, V_UNROLL, cls, N, N, (oa) ? Lim<T>::al : sizeof(T), (ia) ? Lim<T>::al : sizeof(T), M<T>::fn },
#define VE(nm, k, cls, oa, ia, fn) { nm, k, Lim<T>::f64, V_VEC, cls, 0, Lim<T>::vs, (oa) ? Lim<T>::al : sizeof(T), (ia) ? Lim<T>::al : sizeof(T), M<T>::fn },
template <typename T> struct Tab { static const Op ops[]; static const unsigned n; };
template <typename T> const Op Tab<T>::ops[] = {
    SC("zero", "", K_FILL, zero) SI("zero", "", K_FILL, 1, 1, zero_simd) UN("zero", "", K_FILL, 1, 1, zero_unroll)
    SI("zero_na", "", K_FILL, 0, 0, zero_na) UN("zero_na", "", K_FILL, 0, 0, zero_na_unroll)
    SC("set", "s", K_FILL, set) SI("set", "s", K_FILL, 1, 1, set_simd) UN("set", "s", K_FILL, 1, 1, set_unroll)
    SI("set_na", "s", K_FILL, 0, 0, set_na) UN("set_na", "s", K_FILL, 0, 0, set_na_unroll)
    SC("set_slope", "r", K_FILL, slope) SI("set_slope", "r", K_FILL, 1, 1, slope_simd)
    SC("set_exp", "r", K_FILL, exp) SI("set_exp", "r", K_FILL, 1, 1, exp_simd)
    SC("copy", "v", K_COPY, copy) SI("copy", "v", K_COPY, 1, 1, copy_simd) UN("copy", "v", K_COPY, 1, 1, copy_unroll)
    SI("copy_aa", "v", K_COPY, 1, 1, aa) SI("copy_na", "v", K_COPY, 1, 0, na) SI("copy_an", "v", K_COPY, 0, 1, an) SI("copy_nn", "v", K_COPY, 0, 0, nn)
    UN("copy_aa", "v", K_COPY, 1, 1, aa_u) UN("copy_na", "v", K_COPY, 1, 0, na_u) UN("copy_an", "v", K_COPY, 0, 1, an_u) UN("copy_nn", "v", K_COPY, 0, 0, nn_u)
    VE("stream_copy", "v", K_COPY, 1, 1, stream_copy) VE("lane_copy", "v", K_COPY, 0, 0, lane_copy)
    SC("add", "v", K_ADD, addv) SI("add", "v", K_ADD, 1, 1, addv_simd) UN("add", "v", K_ADD, 1, 1, addv_unroll)
    SC("add", "s", K_ADD, adds) SI("add", "s", K_ADD, 1, 1, adds_simd) UN("add", "s", K_ADD, 1, 1, adds_unroll)
#ifndef NO_ADDVEC_RAMP
    SC("add", "r", K_ADD, addr) SI("add", "r", K_ADD, 1, 1, addr_simd) UN("add", "r", K_ADD, 1, 1, addr_unroll)
#endif
};
template <typename T> const unsigned Tab<T>::n = sizeof(Tab<T>::ops) / sizeof(Op);
const Reg r32(Tab<float>::ops, Tab<float>::n);
const Reg r64(Tab<double>::ops, Tab<double>::n);
} }
