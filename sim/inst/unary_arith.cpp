#include "inst.hpp"
#include "simd_unary_arithmetic.hpp"
#define UNROLL_N 32
#define UNARY_LIST(X) X(abs, abs) X(sgn, sign) X(square, square) X(cube, cube) X(round, round) X(frac, frac) \
    X(ceil, ceil) X(floor, floor) X(trunc, trunc) X(undenormalize, undenormalize) X(reciprocal, reciprocal)
#include "unary.inc"
