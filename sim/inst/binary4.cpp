#include "inst.hpp"
#include "simd_math.hpp"
#include "simd_mix.hpp"
#define UNROLL_N 16
#define BINARY_LIST(X) X(pow, pow(l, r)) X(spow, signed_pow(l, r)) X(sum, l + r)
#include "binary.inc"
