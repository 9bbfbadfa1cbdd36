#include "inst.hpp"
#include "simd_math.hpp"
#include "softclip.hpp"
#define UNROLL_N 32
#define UNARY_LIST(X) X(sin, sin) X(cos, cos) X(tan, tan) X(tanh, tanh) X(signed_sqrt, signed_sqrt)
#define UNARY_LIST_NV(X) X(softclip)
#include "unary.inc"
