// expects: UNARY_LIST(X) (has a vec-level function) and/or UNARY_LIST_NV(X) (block functions only), UNROLL_N
#ifndef UNARY_LIST
#define UNARY_LIST(X)
#endif
#ifndef UNARY_LIST_NV
#define UNARY_LIST_NV(X)
#endif
namespace sim { namespace {
#define X(NAME, VFN)                                                                             \
template <typename T> struct U_##NAME {                                                          \
    static void scalar(Args & a) { nova::NAME##_vec(O(a), static_cast<const T *>(a.in[0]), a.n); } \
    static void simd(Args & a) { nova::NAME##_vec_simd(O(a), static_cast<const T *>(a.in[0]), a.n); } \
    static void unroll(Args & a) { nova::NAME##_vec_simd<UNROLL_N>(O(a), static_cast<const T *>(a.in[0])); } \
    static void vecapi(Args & a) {                                                               \
        const T * in = static_cast<const T *>(a.in[0]); T * out = O(a);                          \
        for (unsigned i = 0; i != a.n; i += nova::vec<T>::size) {                                \
            nova::vec<T> v; v.load(in + i); nova::vec<T> r = VFN(v); r.store(out + i); }         \
    }                                                                                            \
};
UNARY_LIST(X)
#undef X
#define X(NAME)                                                                                  \
template <typename T> struct U_##NAME {                                                          \
    static void scalar(Args & a) { nova::NAME##_vec(O(a), static_cast<const T *>(a.in[0]), a.n); } \
    static void simd(Args & a) { nova::NAME##_vec_simd(O(a), static_cast<const T *>(a.in[0]), a.n); } \
    static void unroll(Args & a) { nova::NAME##_vec_simd<UNROLL_N>(O(a), static_cast<const T *>(a.in[0])); } \
};
UNARY_LIST_NV(X)
#undef X
#define E3(NAME, T)                                                                              \
    { #NAME, "v", Lim<T>::f64, V_SCALAR, K_ELEM, 0, 1, sizeof(T), sizeof(T), U_##NAME<T>::scalar },    \
    { #NAME, "v", Lim<T>::f64, V_SIMD, K_ELEM, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, U_##NAME<T>::simd }, \
    { #NAME, "v", Lim<T>::f64, V_UNROLL, K_ELEM, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, U_##NAME<T>::unroll },
#define E4(NAME, T)                                                                              \
    { #NAME, "v", Lim<T>::f64, V_SCALAR, K_ELEM, 0, 1, sizeof(T), sizeof(T), U_##NAME<T>::scalar },    \
    { #NAME, "v", Lim<T>::f64, V_SIMD, K_ELEM, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, U_##NAME<T>::simd }, \
    { #NAME, "v", Lim<T>::f64, V_UNROLL, K_ELEM, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, U_##NAME<T>::unroll }, \
    { #NAME, "v", Lim<T>::f64, V_VEC, K_ELEM, 0, Lim<T>::vs, sizeof(T), sizeof(T), U_##NAME<T>::vecapi },
#define X(NAME, VFN) E4(NAME, float) E4(NAME, double)
#define Y(NAME) E3(NAME, float) E3(NAME, double)
const Op ops[] = { UNARY_LIST(X) UNARY_LIST_NV(Y) };
#undef X
const Reg reg(ops, sizeof(ops) / sizeof(ops[0]));
} }
