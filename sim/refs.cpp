#include "refs.hpp"
#include <cmath>
#include <limits>

namespace sim {

static const char * const names[] = {
    "plus", "minus", "times", "over", "min", "max", "less", "less_equal", "greater", "greater_equal", "equal", "notequal", "clip2",
    "clip", "muladd", "ampmod", "sum", "mix", "pan2", "add",
    "abs", "sgn", "square", "cube", "round", "frac", "ceil", "floor", "trunc", "undenormalize", "reciprocal", "softclip",
    "sin", "cos", "tan", "tanh", "asin", "acos", "atan", "log", "log2", "log10", "exp", "signed_sqrt", "pow", "spow",
    "midi2freq", "freq2midi", "midi2ratio", "ratio2midi", "oct2freq", "freq2oct", "amp2db", "db2amp", "set_slope", "set_exp"
};

int ref_id(const Op * op)
{
    for (int i = 0; i < R_NONE; ++i) if (!strcmp(op->name, names[i])) return i;
    return R_NONE;
}

bool ref_multilinear(int id)
{
    switch (id) { case R_plus: case R_minus: case R_times: case R_muladd: case R_ampmod: case R_sum: case R_mix: case R_pan2: case R_add: case R_set_slope: return true; }
    return false;
}
bool ref_single_rounding(int id, unsigned arity)
{
    switch (id) {
    case R_plus: case R_minus: case R_times: case R_over: case R_min: case R_max: case R_less: case R_less_equal: case R_greater: case R_greater_equal: case R_equal: case R_notequal:
    case R_clip2: case R_clip: case R_pan2: case R_add: case R_set_slope: return true;
    case R_sum: return arity == 2;
    }
    return false;
}

template <class T> static T one(int id, const long double * a)
{
    volatile T x = T(a[0]), y = T(a[1]), z = T(a[2]);     // volatile: every operation is rounded to T
    switch (id) {
    case R_plus: case R_sum: case R_add: return x + y;
    case R_minus: return x - y;
    case R_times: return x * y;
    case R_over: return x / y;
    case R_min: return x < y ? x : y;
    case R_max: return x > y ? x : y;
    case R_less: return x < y;
    case R_less_equal: return x <= y;
    case R_greater: return x > y;
    case R_greater_equal: return x >= y;
    case R_equal: return x == y;
    case R_notequal: return x != y;
    case R_clip2: return x > y ? y : x < -y ? T(-y) : x;
    case R_clip: return x > z ? z : x < y ? y : x;
    case R_abs: return x < 0 ? T(-x) : x;
    case R_sgn: return x > 0 ? T(1) : x < 0 ? T(-1) : T(0);
    case R_square: return x * x;
    case R_round: return T(std::round(double(x)));
    case R_frac: { volatile T f = T(std::floor(double(x))); return x - f; }
    case R_ceil: return T(std::ceil(double(x)));
    case R_floor: return T(std::floor(double(x)));
    case R_trunc: return T(std::trunc(double(x)));
    case R_undenormalize: return (x < 0 ? T(-x) : x) < std::numeric_limits<T>::min() ? T(0) : x;
    case R_set_slope: return x;
    }
    return 0;
}

// relative and absolute error the SIMD approximations may have (documented: 5e-7 relative); doubles use libm
struct Tol { double r32, a32, r64, a64; };
static Tol tol_of(int id)
{
    switch (id) {
    case R_cube:        return { 5e-7, 0, 1e-15, 0 };
    case R_reciprocal:  return { 8e-7, 0, 1e-15, 0 };
    case R_softclip:    return { 5e-7, 0, 1e-15, 0 };
    case R_sin: case R_cos: return { 5e-7, 2e-7, 2e-15, 2e-15 };
    case R_tan:         return { 1e-6, 1e-7, 3e-15, 2e-15 };
    case R_tanh: case R_asin: case R_acos: case R_atan: return { 8e-7, 3e-7, 2e-15, 2e-15 };
    case R_log: case R_log2: case R_log10: return { 5e-7, 5e-7, 2e-15, 2e-15 };
    case R_exp:         return { 8e-7, 0, 2e-15, 0 };
    case R_signed_sqrt: return { 4e-7, 0, 1e-15, 0 };
    case R_pow: case R_spow: return { 1e-5, 0, 3e-15, 0 };
    case R_midi2freq: case R_midi2ratio: return { 4e-6, 0, 1e-10, 0 };
    case R_oct2freq:    return { 4e-6, 0, 1e-14, 0 };
    case R_db2amp:      return { 8e-6, 0, 2e-14, 0 };
    case R_freq2midi:   return { 2e-6, 5e-5, 1e-11, 1.5e-9 };
    case R_ratio2midi:  return { 1e-6, 1e-5, 1e-14, 1e-13 };
    case R_freq2oct:    return { 1e-6, 3e-6, 1e-11, 1.5e-10 };
    case R_amp2db:      return { 1e-6, 1e-5, 1e-14, 1e-13 };
    }
    return { 0, 0, 0, 0 };
}

void ref_eval(int id, bool f64, unsigned arity, const long double * a, Ref & r)
{
    const long double eps = f64 ? 0x1p-52L : 0x1p-23L;
    r.nout = 1; r.exact = true; r.tol[0] = r.tol[1] = 0;
    switch (id) {
    case R_muladd: r.exact = false; r.v[0] = a[0] * a[1] + a[2]; r.tol[0] = 3 * eps * (fabsl(a[0] * a[1]) + fabsl(a[2])); return;
    case R_ampmod: r.exact = false; r.v[0] = a[0] * (1 + a[1] * a[2]); r.tol[0] = 4 * eps * fabsl(a[0]) * (1 + fabsl(a[1] * a[2])); return;
    case R_mix: r.exact = false; r.v[0] = a[0] * a[1] + a[2] * a[3]; r.tol[0] = 4 * eps * (fabsl(a[0] * a[1]) + fabsl(a[2] * a[3])); return;
    case R_sum:
        if (arity == 2) break;
        r.exact = false; r.v[0] = r.tol[0] = 0;
        for (unsigned i = 0; i < arity; ++i) { r.v[0] += a[i]; r.tol[0] += 4 * eps * fabsl(a[i]); }
        return;
    case R_pan2: r.nout = 2; for (int k = 0; k < 2; ++k) { long double b[3] = { a[0], a[1 + k], 0 }; r.v[k] = f64 ? one<double>(R_times, b) : one<float>(R_times, b); } return;
    case R_cube: r.v[0] = a[0] * a[0] * a[0]; break;
    case R_reciprocal: r.v[0] = 1 / a[0]; break;
    case R_softclip: r.v[0] = fabsl(a[0]) < 0.5L ? a[0] : (fabsl(a[0]) - 0.25L) / a[0]; break;
    case R_sin: r.v[0] = sinl(a[0]); break;
    case R_cos: r.v[0] = cosl(a[0]); break;
    case R_tan: r.v[0] = tanl(a[0]); break;
    case R_tanh: r.v[0] = tanhl(a[0]); break;
    case R_asin: r.v[0] = asinl(a[0]); break;
    case R_acos: r.v[0] = acosl(a[0]); break;
    case R_atan: r.v[0] = atanl(a[0]); break;
    case R_log: r.v[0] = logl(a[0]); break;
    case R_log2: r.v[0] = log2l(a[0]); break;
    case R_log10: r.v[0] = log10l(a[0]); break;
    case R_exp: r.v[0] = expl(a[0]); break;
    case R_signed_sqrt: r.v[0] = a[0] < 0 ? -sqrtl(-a[0]) : sqrtl(a[0]); break;
    case R_pow: r.v[0] = powl(a[0], a[1]); break;
    case R_spow: r.v[0] = a[0] < 0 ? -powl(-a[0], a[1]) : powl(a[0], a[1]); break;
    case R_midi2freq: r.v[0] = 440 * exp2l((a[0] - 69) / 12); break;
    case R_freq2midi: r.v[0] = 12 * log2l(fabsl(a[0]) / 440) + 69; break;
    case R_midi2ratio: r.v[0] = exp2l(a[0] / 12); break;
    case R_ratio2midi: r.v[0] = 12 * log2l(a[0]); break;
    case R_oct2freq: r.v[0] = 440 * exp2l(a[0] - 4.75L); break;
    case R_freq2oct: r.v[0] = log2l(fabsl(a[0]) / 440) + 4.75L; break;
    case R_amp2db: r.v[0] = 20 * log10l(fabsl(a[0])); break;
    case R_db2amp: r.v[0] = powl(10, a[0] / 20); break;
    default: break;
    }
    Tol t = tol_of(id);
    if (t.r32 != 0) { r.exact = false; r.tol[0] = f64 ? t.r64 * fabsl(r.v[0]) + t.a64 : t.r32 * fabsl(r.v[0]) + t.a32; return; }
    r.v[0] = f64 ? one<double>(id, a) : one<float>(id, a);
}

bool ref_match(const Ref & r, int k, double got)
{
    long double v = r.v[k];
    if (v != v) return got != got;
    if (r.exact) return got == double(v);
    if (got != got) return false;
    return fabsl(got - v) <= r.tol[k];
}

// ordinary operating range of each operand
double ref_domain(Rng & r, int id, unsigned j, unsigned arity, bool f64)
{
    auto U = [&](double lo, double hi) { return lo + (hi - lo) * r.unit(); };
    auto LOGU = [&](double lo, double hi) { return std::exp(U(std::log(lo), std::log(hi))); };
    auto SGN = [&](double v) { return r.next() & 1 ? v : -v; };
    double v = 0;
    switch (id) {
    case R_plus: case R_minus: case R_times: case R_over: case R_min: case R_max: case R_less: case R_less_equal: case R_greater: case R_greater_equal: case R_equal: case R_notequal:
    case R_abs: case R_sgn: case R_square: case R_undenormalize: case R_add: case R_pan2: {
        static const int cl[] = { D_UNIT, D_UNIT, D_DYADIC, D_INTS, D_WIDE, D_AUDIO, D_DENORM, D_NONNAN };
        if (r.chance(20)) return SGN(double(r.below(4)));
        if (id == R_undenormalize && r.chance(25)) {       // the smallest normal number and its neighbours
            if (f64) { double m = std::numeric_limits<double>::min(); int k = r.range(-2, 2); return SGN(m + k * std::numeric_limits<double>::denorm_min()); }
            float m = std::numeric_limits<float>::min(); int k = r.range(-2, 2); return SGN(double(m) + k * double(std::numeric_limits<float>::denorm_min()));
        }
        v = gen_value(r, cl[r.below(8)], f64); break; }
    case R_sum: if (arity == 2 && r.chance(40)) { v = gen_value(r, D_WIDE, f64); break; }   // fallthrough
    case R_muladd: case R_ampmod: case R_mix: v = r.chance(20) ? double(r.range(-3, 3)) : r.chance(50) ? U(-1, 1) : U(-10, 10); break;
    case R_clip2: v = j == 0 ? (r.chance(20) ? SGN(double(r.below(3))) : U(-4, 4)) : r.chance(20) ? double(r.below(3)) : U(0, 2); break;
    case R_clip: v = j == 0 ? (r.chance(20) ? SGN(double(r.below(3))) : U(-4, 4)) : j == 1 ? (r.chance(20) ? -double(r.below(3)) : U(-2, 0)) : r.chance(20) ? double(r.below(3)) : U(0, 2); break;
    case R_cube: v = r.chance(50) ? U(-1, 1) : SGN(LOGU(f64 ? 1e-90 : 1e-10, f64 ? 1e90 : 1e12)); break;
    case R_reciprocal: v = SGN(r.chance(50) ? U(0.01, 10) : LOGU(f64 ? 1e-200 : 1e-30, f64 ? 1e200 : 1e30)); break;
    case R_softclip: v = r.chance(20) ? SGN(double(r.range(1, 8)) / 4) : U(-4, 4); break;
    case R_round: case R_frac: case R_ceil: case R_floor: case R_trunc: {
        unsigned w = unsigned(r.below(7));
        if (w == 6) {                                 // the values next to a tie or to a whole number
            double h = double(r.range(-17, 17)) / 2 * (r.chance(50) ? 1 : std::floor(LOGU(1, f64 ? 0x1p45 : 0x1p18)));
            v = f64 ? std::nextafter(h, SGN(1e300)) : double(std::nextafterf(float(h), float(SGN(1e30))));
        } else v = w == 0 ? double(r.range(-1000, 1000)) : w == 1 ? U(-1, 1) : w == 2 ? U(-100, 100) : w == 3 ? SGN(LOGU(1, f64 ? 0x1p51 : 0x1p22)) : w == 4 ? double(r.range(-8000, 8000)) / 8 : SGN(LOGU(1e-6, 1));
        v = f64 ? v : double(float(v));
        if (id == R_round && std::fabs(v - std::trunc(v)) == 0.5) v = std::trunc(v);    // ties: the kernels' conventions differ
        break; }
    case R_sin: case R_cos: v = r.chance(60) ? U(-3.2, 3.2) : r.chance(30) ? double(r.range(-6, 6)) / 2 : r.chance(70) ? U(-50, 50) : U(-4000, 4000); break;
    case R_tan: do v = r.chance(60) ? U(-1.5, 1.5) : U(-6, 6); while (std::fabs(std::cos(v)) < 0.05); break;
    case R_tanh: v = r.chance(60) ? U(-2, 2) : U(-20, 20); break;
    case R_asin: case R_acos: v = r.chance(15) ? double(r.range(-4, 4)) / 4 : U(-1, 1); break;
    case R_atan: v = r.chance(60) ? U(-3, 3) : SGN(LOGU(1e-8, 1e8)); break;
    case R_log: case R_log2: case R_log10: v = r.chance(50) ? U(0.01, 10) : r.chance(30) ? double(r.range(1, 64)) : f64 && r.chance(50) ? LOGU(1e-290, 1e290) : LOGU(1e-30, 1e30); break;
    case R_exp: v = r.chance(60) ? U(-5, 5) : r.chance(20) ? double(r.range(-8, 8)) : f64 && r.chance(50) ? U(-690, 690) : U(-80, 80); break;
    case R_signed_sqrt: v = r.chance(50) ? U(-4, 4) : SGN(LOGU(f64 ? 1e-280 : 1e-30, f64 ? 1e280 : 1e30)); break;
    case R_pow: v = j == 0 ? (r.chance(60) ? U(0.05, 8) : LOGU(1e-3, 1e3)) : r.chance(25) ? double(r.range(-3, 4)) : U(-4, 4); break;
    case R_spow: v = j == 0 ? SGN(r.chance(60) ? U(0.05, 8) : LOGU(1e-3, 1e3)) : r.chance(25) ? double(r.range(-3, 4)) : U(-4, 4); break;
    case R_midi2freq: v = r.chance(40) ? double(r.range(0, 127)) : U(0, 130); break;
    case R_freq2midi: case R_freq2oct: v = LOGU(8, 20000); break;
    case R_midi2ratio: v = r.chance(40) ? double(r.range(-48, 48)) : U(-60, 60); break;
    case R_ratio2midi: v = LOGU(0.01, 100); break;
    case R_oct2freq: v = U(0, 11); break;
    case R_amp2db: v = SGN(LOGU(1e-6, 100)); break;
    case R_db2amp: v = r.chance(30) ? double(r.range(-20, 6)) * 6 : U(-120, 40); break;
    default: v = U(-1, 1);
    }
    if (arity == 1 && r.chance(10)) {        // branch points of the approximations
        double lo = 1, hi = -1, w = gen_value(r, D_THRESH, f64);
        switch (id) {
        case R_sin: case R_cos: lo = -50; hi = 50; break;
        case R_tan: if (std::fabs(std::cos(w)) >= 0.05) { lo = -6; hi = 6; } break;
        case R_tanh: lo = -20; hi = 20; break;
        case R_asin: case R_acos: lo = -1; hi = 1; break;
        case R_atan: lo = -1e4; hi = 1e4; break;
        case R_log: case R_log2: case R_log10: lo = 1e-30; hi = 1e30; break;
        case R_exp: lo = -80; hi = 80; break;
        case R_signed_sqrt: lo = -1e10; hi = 1e10; break;
        case R_softclip: lo = -4; hi = 4; break;
        }
        if (w >= lo && w <= hi && (id != R_softclip || w != 0)) v = w;
    }
    return f64 ? v : double(float(v));
}

} // namespace sim
