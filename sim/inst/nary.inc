// Generic instantiation of binary / ternary / quaternary entry points for a list of operand-kind signatures.
namespace sim { namespace {

#define G(K, i) Mk<K, T>::get(a, i)

#define DEF2(NAME)                                                                        \
template <typename T, char A, char B> struct B_##NAME {                                   \
    static void scalar(Args & a) { nova::NAME##_vec(O(a), G(A,0), G(B,1), a.n); }         \
    static void simd(Args & a)   { nova::NAME##_vec_simd(O(a), G(A,0), G(B,1), a.n); }    \
    static void unroll(Args & a) { nova::NAME##_vec_simd<UNROLL_N>(O(a), G(A,0), G(B,1)); } \
};
#define DEF3(NAME)                                                                        \
template <typename T, char A, char B, char C> struct T_##NAME {                           \
    static void scalar(Args & a) { nova::NAME##_vec(O(a), G(A,0), G(B,1), G(C,2), a.n); } \
    static void simd(Args & a)   { nova::NAME##_vec_simd(O(a), G(A,0), G(B,1), G(C,2), a.n); } \
    static void unroll(Args & a) { nova::NAME##_vec_simd<UNROLL_N>(O(a), G(A,0), G(B,1), G(C,2)); } \
};
#define DEF4(NAME)                                                                        \
template <typename T, char A, char B, char C, char D> struct Q_##NAME {                   \
    static void scalar(Args & a) { nova::NAME##_vec(O(a), G(A,0), G(B,1), G(C,2), G(D,3), a.n); } \
    static void simd(Args & a)   { nova::NAME##_vec_simd(O(a), G(A,0), G(B,1), G(C,2), G(D,3), a.n); } \
    static void unroll(Args & a) { nova::NAME##_vec_simd<UNROLL_N>(O(a), G(A,0), G(B,1), G(C,2), G(D,3)); } \
};
#define DEFV2(NAME, EXPR)                                                                 \
template <typename T> struct BV_##NAME { static void vecapi(Args & a) {                   \
    const T * x = static_cast<const T *>(a.in[0]); const T * y = static_cast<const T *>(a.in[1]); T * out = O(a); \
    for (unsigned i = 0; i != a.n; i += nova::vec<T>::size) {                             \
        nova::vec<T> l, r; l.load(x + i); r.load(y + i); nova::vec<T> q = EXPR; q.store(out + i); } } };

#define ROW(NAME, KS, T, FN)                                                              \
    { #NAME, KS, Lim<T>::f64, V_SCALAR, K_ELEM, 0, 1, sizeof(T), sizeof(T), FN::scalar }, \
    { #NAME, KS, Lim<T>::f64, V_SIMD, K_ELEM, 0, Lim<T>::loop, Lim<T>::al, Lim<T>::al, FN::simd }, \
    { #NAME, KS, Lim<T>::f64, V_UNROLL, K_ELEM, UNROLL_N, UNROLL_N, Lim<T>::al, Lim<T>::al, FN::unroll },
#define ROWV(NAME, KS, T, FN)                                                             \
    { #NAME, KS, Lim<T>::f64, V_VEC, K_ELEM, 0, Lim<T>::vs, sizeof(T), sizeof(T), FN::vecapi },
} }
