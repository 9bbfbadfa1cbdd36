#include "inst.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
namespace sim { namespace {
#define IN(a) (static_cast<const T *>((a).in[0]))
template <typename T> struct M {
    static void peak(Args & a) { a.ret = nova::peak_vec(IN(a), O(a), a.n); }
    static void peak_simd(Args & a) { a.ret = nova::peak_vec_simd(IN(a), O(a), a.n); }
    static void rms(Args & a) { nova::peak_rms_vec(IN(a), O(a), O1(a), a.n); }
    static void rms_simd(Args & a) { nova::peak_rms_vec_simd(IN(a), O(a), O1(a), a.n); }
    static void hmax(Args & a) { *O(a) = nova::horizontal_max_vec(IN(a), a.n); }
    static void hmax_simd(Args & a) { *O(a) = nova::horizontal_max_vec_simd(IN(a), a.n); }
    static void hmin(Args & a) { *O(a) = nova::horizontal_min_vec(IN(a), a.n); }
    static void hmin_simd(Args & a) { *O(a) = nova::horizontal_min_vec_simd(IN(a), a.n); }
    static void hsum(Args & a) { *O(a) = nova::horizontal_sum_vec(IN(a), a.n); }
    static void hsum_simd(Args & a) { *O(a) = nova::horizontal_sum_vec_simd(IN(a), a.n); }
    static void hminmax(Args & a) { nova::horizontal_minmax_vec(*O(a), *O1(a), IN(a), a.n); }
    static void hminmax_simd(Args & a) { nova::horizontal_minmax_vec_simd(*O(a), *O1(a), IN(a), a.n); }
    static void hmaxsum(Args & a) { nova::horizontal_maxsum_vec(*O(a), *O1(a), IN(a), a.n); }
    static void hmaxsum_simd(Args & a) { nova::horizontal_maxsum_vec_simd(*O(a), *O1(a), IN(a), a.n); }
    static void vmax(Args & a) { nova::vec<T> v; v.load(IN(a)); *O(a) = v.horizontal_max(); }
    static void vmin(Args & a) { nova::vec<T> v; v.load(IN(a)); *O(a) = v.horizontal_min(); }
    static void vsum(Args & a) { nova::vec<T> v; v.load(IN(a)); *O(a) = v.horizontal_sum(); }
};
#define SC(nm, cls, fn) { nm, "v", Lim<T>::f64, V_SCALAR, cls, 0, 1, sizeof(T), sizeof(T), M<T>::fn },
#define SI(nm, cls, g, fn) { nm, "v", Lim<T>::f64, V_SIMD, cls, 0, g, sizeof(T), Lim<T>::al, M<T>::fn },
#define VE(nm, cls, fn) { nm, "v", Lim<T>::f64, V_VEC, cls, Lim<T>::vs, Lim<T>::vs, sizeof(T), sizeof(T), M<T>::fn },
template <typename T> struct Tab { static const Op ops[]; static const unsigned n; };
template <typename T> const Op Tab<T>::ops[] = {
    SC("peak", K_PEAK, peak) SI("peak", K_PEAK, 4 * Lim<T>::vs, peak_simd)
    SC("peak_rms", K_RMS, rms) SI("peak_rms", K_RMS, 4 * Lim<T>::vs, rms_simd)
    SC("hmax", K_HRED, hmax) SI("hmax", K_HRED, Lim<T>::vs, hmax_simd) VE("hmax", K_HRED, vmax)
    SC("hmin", K_HRED, hmin) SI("hmin", K_HRED, Lim<T>::vs, hmin_simd) VE("hmin", K_HRED, vmin)
    SC("hsum", K_HRED, hsum) SI("hsum", K_HRED, Lim<T>::vs, hsum_simd) VE("hsum", K_HRED, vsum)
    SC("hminmax", K_HRED2, hminmax) SI("hminmax", K_HRED2, Lim<T>::vs, hminmax_simd)
    SC("hmaxsum", K_HRED2, hmaxsum) SI("hmaxsum", K_HRED2, Lim<T>::vs, hmaxsum_simd)
};
template <typename T> const unsigned Tab<T>::n = sizeof(Tab<T>::ops) / sizeof(Op);
const Reg r32(Tab<float>::ops, Tab<float>::n);
const Reg r64(Tab<double>::ops, Tab<double>::n);
} }
