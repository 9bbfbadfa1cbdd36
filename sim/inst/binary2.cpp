#include "inst.hpp"
#include "simd_binary_arithmetic.hpp"
#define UNROLL_N 32
#define BINARY_LIST(X) X(min, min_(l, r)) X(max, max_(l, r)) X(less, l < r)
#define BINARY_LIST_NV(X) X(clip2)
#include "binary.inc"
