// Small executable reference model of the entry points (one sample at a time).
#ifndef SIM_REFS_HPP
#define SIM_REFS_HPP
#include "core.hpp"

namespace sim {

enum RefId {
    R_plus, R_minus, R_times, R_over, R_min, R_max, R_less, R_less_equal, R_greater, R_greater_equal, R_equal, R_notequal, R_clip2,
    R_clip, R_muladd, R_ampmod, R_sum, R_mix, R_pan2, R_add,
    R_abs, R_sgn, R_square, R_cube, R_round, R_frac, R_ceil, R_floor, R_trunc, R_undenormalize, R_reciprocal, R_softclip,
    R_sin, R_cos, R_tan, R_tanh, R_asin, R_acos, R_atan, R_log, R_log2, R_log10, R_exp, R_signed_sqrt, R_pow, R_spow,
    R_midi2freq, R_freq2midi, R_midi2ratio, R_ratio2midi, R_oct2freq, R_freq2oct, R_amp2db, R_db2amp,
    R_set_slope, R_set_exp, R_NONE
};
int ref_id(const Op * op);

struct Ref {
    bool exact;            // v[] is the only acceptable value
    int nout;
    long double v[2];
    long double tol[2];    // absolute tolerance when not exact
};
// a[]: operand values, already representable in the sample type. 'lin': evaluate multilinear operations in extended precision.
void ref_eval(int id, bool f64, unsigned arity, const long double * a, Ref & r);
bool ref_multilinear(int id);
bool ref_single_rounding(int id, unsigned arity);       // exact result = one correctly rounded operation
double ref_domain(Rng & r, int id, unsigned operand, unsigned arity, bool f64);
bool ref_match(const Ref & r, int k, double got);

} // namespace sim
#endif
