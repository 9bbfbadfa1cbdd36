#include "inst.hpp"
#include "simd_binary_arithmetic.hpp"
#define UNROLL_N 32
#define BINARY_LIST(X) X(less_equal, l <= r) X(greater, l > r) X(greater_equal, l >= r) X(equal, l == r) X(notequal, l != r)
#include "binary.inc"
