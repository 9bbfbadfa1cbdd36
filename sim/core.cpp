#include "core.hpp"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <limits>
#include <sstream>

namespace sim {

uint64_t hash_bytes(const void * p, size_t n, uint64_t h)
{
    const uint8_t * b = static_cast<const uint8_t *>(p);
    for (; n >= 8; n -= 8, b += 8) { uint64_t v; memcpy(&v, b, 8); h = mix64(h, v); }
    for (; n; --n, ++b) h = (h ^ *b) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- op table
std::vector<const Op *> & raw_ops() { static std::vector<const Op *> v; return v; }
Reg::Reg(const Op * ops, unsigned n) { for (unsigned i = 0; i != n; ++i) raw_ops().push_back(ops + i); }
std::vector<const Op *> g_ops;

static const char * const vnames[] = { "scalar", "simd", "unroll", "vec" };
std::string op_id(const Op * op)
{
    return std::string(op->name) + "/" + (*op->kinds ? op->kinds : "-") + "/" + (op->f64 ? "f64" : "f32") + "/" + vnames[op->variant] + (op->variant == V_UNROLL ? std::to_string(op->fixed_n) : "");
}
const Op * find_op(const std::string & id)
{
    for (const Op * o : g_ops) if (op_id(o) == id) return o;
    return nullptr;
}

// ---------------------------------------------------------------- script text
static std::string hexd(double d) { uint64_t u; memcpy(&u, &d, 8); char b[32]; snprintf(b, sizeof b, "%llx", (unsigned long long)u); return b; }
static double unhexd(const std::string & s) { uint64_t u = strtoull(s.c_str(), nullptr, 16); double d; memcpy(&d, &u, 8); return d; }

std::string Script::text() const
{
    std::ostringstream o;
    o << "nova-sim 1\nprop " << prop << "\ncfg " << cfg << "\nseed " << seed << "\ntasks " << nt << "\nused " << used << "\ngarbage " << garbage << "\n";
    if (warm) o << "warm " << warm << "\n";
    if (hop) o << "hop " << hop << "\n";
    if (modes) o << "modes " << modes << "\n";
    for (int i = 0; i < nt; ++i) o << "mxcsr " << i << " " << mxcsr[i] << "\n";
    for (const Map & m : maps) o << "map " << m.page << " " << m.npages << " " << m.prot << "\n";
    for (const Fill & f : fills) o << "fill " << f.off << " " << f.n << " " << int(f.f64) << " " << int(f.cls) << " " << f.seed << "\n";
    for (const Call & c : calls) {
        o << "call " << c.task << " " << op_id(c.op) << " " << c.n << " " << c.o0 << " " << c.o1;
        for (int i = 0; i < 4; ++i) o << " " << c.in[i];
        for (int i = 0; i < 4; ++i) o << " " << hexd(c.s[i]);
        for (int i = 0; i < 4; ++i) o << " " << hexd(c.sl[i]);
        o << " " << int(c.cls) << " " << c.seed << " " << c.flags << " " << c.aux << "\n";
    }
    if (have_slices) {
        o << "slices\n";
        static const char * const kn[] = { "run", "nest", "kill", "restart", "age" };
        for (const Slice & s : slices) o << "slice " << kn[s.kind] << " " << s.task << " " << s.k << " " << s.arg << "\n";
    }
    o << "end\n";
    return o.str();
}

bool Script::parse(const std::string & txt, std::string & err)
{
    std::istringstream in(txt);
    std::string line;
    *this = Script();
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string k; l >> k;
        if (k == "nova-sim" || k == "end") continue;
        if (k == "prop") l >> prop;
        else if (k == "cfg") l >> cfg;
        else if (k == "seed") l >> seed;
        else if (k == "tasks") l >> nt;
        else if (k == "used") l >> used;
        else if (k == "garbage") l >> garbage;
        else if (k == "warm") l >> warm;
        else if (k == "hop") l >> hop;
        else if (k == "modes") l >> modes;
        else if (k == "mxcsr") { int i; uint32_t v; l >> i >> v; mxcsr[i] = v; }
        else if (k == "map") { Map m; l >> m.page >> m.npages >> m.prot; maps.push_back(m); }
        else if (k == "fill") { Fill f; int a, b; l >> f.off >> f.n >> a >> b >> f.seed; f.f64 = a; f.cls = b; fills.push_back(f); }
        else if (k == "call") {
            Call c; std::string id; int cl;
            l >> c.task >> id >> c.n >> c.o0 >> c.o1;
            for (int i = 0; i < 4; ++i) l >> c.in[i];
            for (int i = 0; i < 4; ++i) { std::string s; l >> s; c.s[i] = unhexd(s); }
            for (int i = 0; i < 4; ++i) { std::string s; l >> s; c.sl[i] = unhexd(s); }
            l >> cl >> c.seed >> c.flags >> c.aux; c.cls = cl;
            c.op = find_op(id);
            if (!c.op) { err = "unknown op " + id; return false; }
            calls.push_back(c);
        }
        else if (k == "slices") have_slices = true;
        else if (k == "slice") {
            Slice s; std::string kn; l >> kn >> s.task >> s.k >> s.arg;
            s.kind = kn == "run" ? SL_RUN : kn == "nest" ? SL_NEST : kn == "kill" ? SL_KILL : kn == "age" ? SL_AGE : SL_RESTART;
            slices.push_back(s); have_slices = true;
        }
        else { err = "bad line: " + line; return false; }
    }
    return true;
}

Access access_of(const Call & c)
{
    Access a; memset(&a, 0, sizeof a);
    const unsigned z = esz(c.op);
    auto w = [&](uint32_t off, uint32_t len) { a.wr[a.nw].off = off; a.wr[a.nw++].len = len; a.rd[a.nr].off = off; a.rd[a.nr++].len = len; };
    switch (c.op->cls) {
    case K_ELEM: case K_FILL: case K_COPY: case K_ADD: w(c.o0, c.n * z); break;
    case K_PAN: w(c.o0, c.n * z); w(c.o1, c.n * z); break;
    case K_PEAK: case K_HRED: w(c.o0, z); break;
    case K_RMS: case K_HRED2: w(c.o0, z); w(c.o1, z); break;
    }
    for (unsigned i = 0; i < nkinds(c.op); ++i)
        if (c.op->kinds[i] == 'v') { a.rd[a.nr].off = c.in[i]; a.rd[a.nr++].len = c.n * z; }
    return a;
}

Args make_args(const Call & c)
{
    Args a; memset(&a, 0, sizeof a);
    a.out0 = arena() + c.o0; a.out1 = arena() + c.o1;
    const unsigned csr = __builtin_ia32_stmxcsr();
    __builtin_ia32_ldmxcsr(0x1f80);      // the operands are what the script says, whatever mode the (possibly interrupted) thread is in
    asm volatile("" ::: "memory");
    for (int i = 0; i < 4; ++i) { a.in[i] = arena() + c.in[i]; set_scalar(a, i, c.s[i], c.sl[i]); }
    asm volatile("" ::: "memory");
    __builtin_ia32_ldmxcsr(csr);
    a.n = c.n;
    return a;
}

// ---------------------------------------------------------------- data
static const double thresholds[] = {
    0.5, 1.0, 2.0, 3.0, 0.25, 0.625, 0.1, 0.7853981633974483, 1.5707963267948966, 2.356194490192345, 3.141592653589793, 6.283185307179586,
    0.70710678118654752, 0.41421356237309503, 2.414213562373095, 1e-4, 88.3762626647949, 88.02969193111305, 709.782712893384, 127.0, 126.0, 128.0, 440.0, 69.0,
    8192.0, 8388608.0, 4194304.0, 16777216.0, 2147483648.0, 4503599627370496.0, 9007199254740992.0, 1073741824.0, 65536.0,
    1.17549435e-38, 1e-30, 1e-15, 3.4028234e38, 9.625, 9.0, 5e-5, 20.0, 0.05, 1e10, 10.0, 100.0, 1000.0, 12.0, 1023.0, 1022.0
};

double gen_value(Rng & r, int cls, bool f64)
{
    switch (cls) {
    case D_UNIT: return r.unit() * 2 - 1;
    case D_POS: return r.unit() + 0x1p-20;
    case D_AUDIO: return (r.unit() * 2 - 1) * 10;
    case D_DYADIC: return double(r.range(-512, 512)) / 64;
    case D_INTS: return double(int64_t(r.below(2001)) - 1000);
    case D_WIDE: { double e = (r.unit() * 2 - 1) * (f64 ? 300 : 37); double v = std::pow(10.0, e); return r.next() & 1 ? v : -v; }
    case D_DENORM: { double v = f64 ? double(r.below(1u << 20) + 1) * 0x1p-1070 : double(r.below(1u << 20) + 1) * 0x1p-147; return r.next() & 1 ? v : -v; }
    case D_THRESH: {
        double t = thresholds[r.below(sizeof(thresholds) / sizeof(thresholds[0]))];
        int d = r.range(-2, 2);
        if (f64) { for (int i = 0; i < (d < 0 ? -d : d); ++i) t = std::nextafter(t, d < 0 ? -1e308 : 1e308); }
        else { float f = float(t); for (int i = 0; i < (d < 0 ? -d : d); ++i) f = std::nextafter(f, d < 0 ? -1e38f : 1e38f); t = f; }
        return r.next() & 1 ? t : -t;
    }
    case D_SPECIAL: case D_NONNAN: {
        static const double sp[] = { 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 1e-40, -1e-40, 1e-310, 1.17549435e-38, 3.4028234e38, -3.4028234e38 };
        int k = int(r.below(20));
        if (k < 16) return sp[k];
        if (k == 16) return std::numeric_limits<double>::infinity();
        if (k == 17) return -std::numeric_limits<double>::infinity();
        if (k == 18) return cls == D_NONNAN ? 7.0 : std::numeric_limits<double>::quiet_NaN();
        return gen_value(r, D_THRESH, f64);
    }
    case D_BITS:
        if (f64) { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); if (d != d) return 3.25; return d; }
        else { uint32_t u = uint32_t(r.next()); float f; memcpy(&f, &u, 4); if (f != f) return 3.25; return f; }
    case D_MOSTLY: return r.below(8) ? gen_value(r, D_UNIT, f64) : gen_value(r, D_SPECIAL, f64);
    }
    return r.unit();
}

void fill_data(void * p, unsigned n, bool f64, int cls, uint64_t seed)
{
    Rng r(seed);
    if (cls == D_CONST) { double v = gen_value(r, int(r.below(D_CONST)), f64); for (unsigned i = 0; i < n; ++i) st(p, f64, i, v); return; }
    for (unsigned i = 0; i < n; ++i) st(p, f64, i, gen_value(r, cls, f64));
}

bool same_value(const void * a, const void * b, bool f64)
{
    if (f64) { if (!memcmp(a, b, 8)) return true; double x = ld(a, 1, 0), y = ld(b, 1, 0); return x != x && y != y; }
    if (!memcmp(a, b, 4)) return true;
    float x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x != x && y != y;
}

const char * const fault_names[F_COUNT] = { "preempt", "sandwich", "lockstep", "nested_interrupt", "kill", "restart", "stall", "guard_page", "readonly_input",
    "stale_stack_and_registers", "fp_environment", "sample_corruption", "relocation", "kernel_migration", "block_jitter", "xrun", "in_place", "blocked", "host_reset", "big_block", "instruction_stepped_call", "aimed_at_shared_state", "aged_process", "thread_hop", "burst_of_calls" };

Shared * g_sh;

void violation(const char * cls, const char * fmt, ...)
{
    if (g_sh->status == ST_VIOLATION) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap);
    va_end(ap);
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    g_sh->status = ST_VIOLATION;
}

} // namespace sim
