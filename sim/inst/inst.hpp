// Helpers for the translation units that instantiate the real library.
#ifndef SIM_INST_HPP
#define SIM_INST_HPP
#include <cstddef>
#include <limits>
#include <algorithm>
#include <cmath>
#include "../ops.hpp"
#include "vec.hpp"

namespace sim {

template <char K, typename T> struct Mk;
template <typename T> struct Mk<'v', T> { static const T * get(const Args & a, int i) { return static_cast<const T *>(a.in[i]); } };
template <typename T> struct Mk<'s', T> { static T get(const Args & a, int i) { return Sc<T>::s(a, i); } };
template <typename T> struct Mk<'r', T> {
    static auto get(const Args & a, int i) -> decltype(nova::slope_argument(T(0), T(0))) { return nova::slope_argument(Sc<T>::s(a, i), Sc<T>::sl(a, i)); }
};

template <typename T> struct Lim {
    static const int vs   = nova::vec<T>::size;
    static const int loop = nova::vec<T>::objects_per_cacheline;
    static const int al   = sizeof(T) * vs > 16 ? 32 : 16;
    static const int f64  = sizeof(T) == 8;
};

#define O(a) (static_cast<T *>((a).out0))
#define O1(a) (static_cast<T *>((a).out1))

} // namespace sim
#endif
