#include "inst.hpp"
#include "simd_math.hpp"
#define UNROLL_N 32
#define UNARY_LIST(X) X(asin, asin) X(acos, acos) X(atan, atan) X(log, log) X(log2, log2) X(log10, log10) X(exp, exp)
#include "unary.inc"
