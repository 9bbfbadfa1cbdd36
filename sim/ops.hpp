// Uniform call interface between the simulator and the real nova-simd entry points.
#ifndef SIM_OPS_HPP
#define SIM_OPS_HPP
#include <cstddef>
#include <cstdint>

namespace sim {

struct Args {
    void *       out0;      // output buffer (or first state / result cell)
    void *       out1;      // second output buffer (or second state / result cell)
    const void * in[4];     // vector operands
    double       s[4];      // scalar operand / ramp base
    double       sl[4];     // ramp slope
    float        sf[4], slf[4];   // the same for float operands (converted outside the call: the caller's rounding / flush modes must not touch them)
    unsigned     n;
    double       ret;       // value returned by the call, if any
};

inline void set_scalar(Args & a, int i, double s, double sl) { a.s[i] = s; a.sl[i] = sl; a.sf[i] = float(s); a.slf[i] = float(sl); }
template <typename T> struct Sc;
template <> struct Sc<float> { static float s(const Args & a, int i) { return a.sf[i]; } static float sl(const Args & a, int i) { return a.slf[i]; } };
template <> struct Sc<double> { static double s(const Args & a, int i) { return a.s[i]; } static double sl(const Args & a, int i) { return a.sl[i]; } };

enum Variant : uint8_t { V_SCALAR = 0, V_SIMD = 1, V_UNROLL = 2, V_VEC = 3 };
enum Class   : uint8_t {
    K_ELEM   = 0,   // out[i] = f(arg0[i], arg1[i], ...)
    K_PAN    = 1,   // two outputs
    K_PEAK   = 2,   // carried peak cell
    K_RMS    = 3,   // carried peak and squared-sum cells
    K_HRED   = 4,   // horizontal reduction into one cell
    K_HRED2  = 5,   // horizontal reduction into two cells
    K_FILL   = 6,   // zero / set / slope / exp
    K_COPY   = 7,
    K_ADD    = 8,   // out[i] += arg
};

struct Op {
    const char * name;      // base name, e.g. "plus"
    const char * kinds;     // one letter per operand: v(ector) s(calar) r(amp)
    uint8_t      f64;
    uint8_t      variant;
    uint8_t      cls;
    uint16_t     fixed_n;   // V_UNROLL
    uint16_t     gran;      // n must be a multiple of this
    uint8_t      out_align; // bytes
    uint8_t      in_align;  // bytes
    void (*fn)(Args &);
};

struct Reg { Reg(const Op * ops, unsigned n); };

} // namespace sim
#endif
