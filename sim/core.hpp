// Shared data model of the simulator: PRNG, scripts, arena, result block.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include "ops.hpp"

namespace sim {

// ---------------------------------------------------------------- PRNG: the only source of randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }
    bool chance(unsigned pct) { return below(100) < pct; }
    double unit() { return double(next() >> 11) * 0x1p-53; }
};

inline uint64_t mix64(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
uint64_t hash_bytes(const void * p, size_t n, uint64_t h = 1469598103934665603ull);

// ---------------------------------------------------------------- op table
extern std::vector<const Op *> g_ops;                 // deterministic order
std::string op_id(const Op * op);                     // "plus/vv/f32/simd"
const Op * find_op(const std::string & id);
inline unsigned esz(const Op * op) { return op->f64 ? 8 : 4; }
inline unsigned nkinds(const Op * op) { return unsigned(strlen(op->kinds)); }

// ---------------------------------------------------------------- arena: all buffers the library sees
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SIZE = 104u << 20, STREAM_SIZE = 96u << 20;      // the rest belongs to the calls that age the process
static const size_t PAGE = 4096;
inline uint8_t * arena() { return reinterpret_cast<uint8_t *>(ARENA); }

// ---------------------------------------------------------------- script = replay file
enum { MAXT = 6, MAXCALLS = 64 };

struct Fill { uint32_t off, n; uint8_t f64, cls; uint64_t seed; };
struct Map  { uint32_t page, npages; char prot; };    // 'r' 'w' '-' ; anything not mapped is '-'
struct Call {
    int task;
    const Op * op;
    uint32_t n, o0, o1, in[4];
    double s[4], sl[4];
    uint8_t cls;          // streaming runs: data class and seed of the block's samples
    uint64_t seed;
    uint32_t flags;       // property specific
    uint64_t aux;         // property specific
    Call() { memset(static_cast<void *>(this), 0, sizeof(*this)); }
};
enum SliceKind { SL_RUN = 0, SL_NEST = 1, SL_KILL = 2, SL_RESTART = 3, SL_AGE = 4 };
struct Slice { int kind, task; uint64_t k; int arg; };

struct Script {
    std::string prop, cfg;
    uint64_t seed;
    int nt;
    uint32_t mxcsr[MAXT];
    uint32_t used;                // bytes of the arena in use
    uint64_t garbage;             // seed of stale stack / register contents
    uint32_t warm;                // age of the process: how often the first operation has already run, on buffers of its own
    uint32_t modes;               // the threads change their floating-point mode from call to call (0: one mode per task)
    uint32_t hop;                 // streams: blocks are processed by a pool of threads (0: all on one)
    std::vector<Fill> fills;
    std::vector<Map> maps;
    std::vector<Call> calls;
    std::vector<Slice> slices;
    bool have_slices;
    Script() : seed(0), nt(0), used(0), garbage(0), warm(0), modes(0), hop(0), have_slices(false) { for (int i = 0; i < MAXT; ++i) mxcsr[i] = 0x1f80; }
    std::string text() const;
    bool parse(const std::string & txt, std::string & err);
};

// ranges one call may touch
struct Range { uint32_t off, len; };
struct Access { Range wr[2]; int nw; Range rd[6]; int nr; };
Access access_of(const Call & c);
Args make_args(const Call & c);

// ---------------------------------------------------------------- data generation
enum DataClass {
    D_UNIT, D_DYADIC, D_WIDE, D_SPECIAL, D_BITS, D_CONST, D_MOSTLY, D_THRESH, D_POS, D_AUDIO, D_INTS, D_DENORM, D_NONNAN, D_COUNT
};
double gen_value(Rng & r, int cls, bool f64);
void fill_data(void * p, unsigned n, bool f64, int cls, uint64_t seed);
inline double ld(const void * p, bool f64, size_t i) { if (f64) { double d; memcpy(&d, static_cast<const char *>(p) + 8 * i, 8); return d; } float f; memcpy(&f, static_cast<const char *>(p) + 4 * i, 4); return f; }
inline void st(void * p, bool f64, size_t i, double v) { if (f64) memcpy(static_cast<char *>(p) + 8 * i, &v, 8); else { float f = float(v); memcpy(static_cast<char *>(p) + 4 * i, &f, 4); } }
bool same_value(const void * a, const void * b, bool f64);   // bitwise, any NaN equals any NaN

// ---------------------------------------------------------------- result block shared with forked runs
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };
enum Fault { F_PREEMPT, F_SANDWICH, F_LOCKSTEP, F_NEST, F_KILL, F_RESTART, F_STALL, F_GUARD, F_RDONLY, F_DIRTY, F_FPENV, F_CORRUPT, F_RELOC, F_MIGRATE, F_JITTER, F_XRUN, F_INPLACE, F_BLOCKED, F_RESET, F_BIGBLOCK, F_STEP, F_AIM, F_AGED, F_HOP, F_BURST, F_COUNT };
extern const char * const fault_names[F_COUNT];

struct Shared {
    volatile int status;
    char cls[64];                 // violation class
    char msg[768];
    uint64_t digest;              // of the event trace
    uint64_t steps;               // simulated steps
    uint64_t samples;             // simulated samples
    uint64_t checks;              // oracle evaluations
    uint64_t switches;
    uint64_t faults[F_COUNT];
    uint64_t call_steps[MAXCALLS];
    uint32_t ncs;
    uint64_t out_hash[MAXCALLS];      // C09: what each block of the stream came out as
    uint32_t nhot; uint32_t ok_calls; uint64_t hot[64];   // solo run: task-relative steps at which memory outside stack and arena was written, or mutable globals were read
    uint32_t blob_len;
    uint8_t blob[1 << 20];
};
extern Shared * g_sh;

void violation(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));   // first one wins
inline bool violated() { return g_sh->status == ST_VIOLATION; }
inline void ev(uint64_t v) { g_sh->digest = mix64(g_sh->digest, v); }

} // namespace sim
#endif
