#include "inst.hpp"
#include "simd_binary_arithmetic.hpp"
#define UNROLL_N 32
#define BINARY_LIST(X) X(plus, l + r) X(minus, l - r) X(times, l * r) X(over, l / r)
#include "binary.inc"
