#include "inst.hpp"
#include "simd_unit_conversion.hpp"
#define UNROLL_N 16
#define UNARY_LIST_NV(X) X(midi2freq) X(freq2midi) X(midi2ratio) X(ratio2midi) X(oct2freq) X(freq2oct) X(amp2db) X(db2amp)
#include "unary.inc"
