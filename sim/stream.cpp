// C06..C10: block streams. A simulated audio host drives voices block by block; the seed decides block sizes, kernel variants, buffer
// placement, voice interleaving, dropped blocks, resets and corrupted samples. Every block is checked against a reference model.
#include "props.hpp"
#include "refs.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <limits>
#include <unistd.h>

namespace sim {

static const uint32_t SLOT = STREAM_SIZE / 8;
enum { FL_RESET = 1, FL_DECAY = 2, FL_XRUN = 4, FL_EXACT = 8, FL_CORRUPT = 16, FL_INPLACE = 32 };

// ---------------------------------------------------------------- common
static uint32_t stream_n(Rng & r, const Op * op, int big)      // big: 0 small, 1 medium, 2 huge, 3 about a million samples
{
    if (op->fixed_n) return op->fixed_n;
    uint32_t m = big == 0 ? 140 : big == 1 ? 5000 : 70000;
    if (big == 3) return ((1u << 20) - 4096 + uint32_t(r.below(8192))) / op->gran * op->gran;
    if (big == 1) return long_n(r, op);
    if (big == 2 && r.chance(50)) { uint32_t n = 65536 + uint32_t(r.below(2)) * op->gran * (1 + uint32_t(r.below(30))); return n / op->gran * op->gran; }
    if (big && r.chance(50)) return std::max<uint32_t>(1, m / op->gran - uint32_t(r.below(m / op->gran / 2 + 1))) * op->gran;
    return draw_n(r, op, 140);
}
static int draw_big(Rng & r, uint64_t seed, size_t pool)
{
    unsigned w = unsigned(r.below(1000));
    if (strat_long(seed, pool)) return w < 3 ? 3 : w < 120 ? 2 : 1;
    return w < 4 ? 2 : w < 40 ? 1 : 0;
}

static uint32_t slot_off(Rng & r, int slot, uint32_t al) { return slot * SLOT + 4096 + uint32_t(r.below(1024 / al)) * al; }

static const Op * variant_of(Rng & r, const Op * like, bool same_family = false, bool any_kinds = false)
{
    const Op * pick = nullptr; int seen = 0;
    for (const Op * o : g_ops) {
        if (strcmp(o->name, like->name) || o->f64 != like->f64 || o->cls != like->cls) continue;
        if (any_kinds) { if (nkinds(o) != nkinds(like) || strchr(o->kinds, 'r')) continue; }
        else if (strcmp(o->kinds, like->kinds)) continue;
        if (same_family && (o->variant == V_SCALAR) != (like->variant == V_SCALAR)) continue;
        if (r.below(++seen) == 0) pick = o;
    }
    return pick ? pick : like;
}

static void poison(uint32_t off, uint32_t len)      // what lies around a block is hostile
{
    memset(arena() + off - 64, 0xff, 64); memset(arena() + off + len, 0xff, 64);
}

static uint64_t stream_trace(const Script & sc)
{
    uint64_t h = 11;
    for (const Call & c : sc.calls) {
        std::string id = op_id(c.op);
        h = mix64(h, hash_bytes(id.data(), id.size())); h = mix64(h, (uint64_t(c.n) << 20) ^ (uint64_t(c.task) << 8) ^ c.flags ^ (uint64_t(c.cls) << 40));
        h = mix64(h, (uint64_t(c.o0) << 32) ^ c.in[0]);
    }
    return h;
}

struct Hist { uint32_t n, off; int variant; bool any; };
static Hist g_hist[MAXT];
static void note_faults(const Call & c)
{
    Hist & h = g_hist[c.task];
    if (h.any) { if (h.n != c.n) g_sh->faults[F_JITTER]++; if (h.variant != c.op->variant) g_sh->faults[F_MIGRATE]++; if (h.off != (nkinds(c.op) && c.op->kinds[0] == 'v' ? c.in[0] : c.o0)) g_sh->faults[F_RELOC]++; }
    h.any = true; h.n = c.n; h.variant = c.op->variant; h.off = nkinds(c.op) && c.op->kinds[0] == 'v' ? c.in[0] : c.o0;
    if (c.n > 1000) g_sh->faults[F_BIGBLOCK]++;
    if (c.flags & FL_XRUN) g_sh->faults[F_XRUN]++;
    if (c.flags & (FL_RESET | FL_DECAY)) g_sh->faults[F_RESET]++;
    if (c.flags & FL_INPLACE) g_sh->faults[F_INPLACE]++;
    g_sh->faults[F_DIRTY]++;
    g_sh->samples += c.n;
}

// A pool of threads that take turns: a host may hand each block of a voice to another worker.
struct Worker { sem_t go; Task * t; };
static Worker g_pool[2];
static sem_t g_pool_done;
static void * worker_main(void * p)
{
    Worker & w = *static_cast<Worker *>(p);
    for (;;) { sem_wait(&w.go); t_cur = w.t; run_call(*w.t); t_cur = nullptr; sem_post(&g_pool_done); }
    return nullptr;
}
static void start_pool()
{
    sem_init(&g_pool_done, 0, 0);
    for (Worker & w : g_pool) {
        sem_init(&w.go, 0, 0);
        pthread_t th; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
        if (pthread_create(&th, &at, worker_main, &w) != 0) { g_sh->status = ST_ERROR; snprintf(g_sh->msg, sizeof g_sh->msg, "pthread_create failed"); _exit(0); }
    }
}

static void run_stream(Script & sc, Outcome & o, void (*start)(const Script &), void (*before)(Task &, const Call &), void (*after)(Task &, const Call &))
{
    sc.have_slices = true;
    int pid = fork_child();
    if (pid == 0) {
        static Engine e;
        e.dirty = true; e.before = before; e.after = after; e.step_limit = 100000;
        e.same_again = sc.prop == "C09" || sc.prop == "C08" ? 1 : 2;
        engine_setup(e, sc);
        if (sc.warm) { g_sh->faults[F_AGED]++; age(e, sc, sc.warm); }
        memset(g_hist, 0, sizeof g_hist);
        if (start) start(sc);
        if (sc.hop) start_pool();
        int last = -1;
        for (const Call & c : sc.calls) {
            Task & t = e.tasks[c.task];
            int wk = sc.hop ? int(mix64(sc.hop, &c - &sc.calls[0]) % 3) : 2;
            if (last >= 0 && wk != last) g_sh->faults[F_HOP]++;
            last = wk;
            t.left = ~0ull;
            if (sc.mxcsr[c.task] != 0x1f80) g_sh->faults[F_FPENV]++;
            note_faults(c);
            if (wk < 2) { g_pool[wk].t = &t; sem_post(&g_pool[wk].go); sem_wait(&g_pool_done); }
            else { t_cur = &t; run_call(t); t_cur = nullptr; }
        }
        g_sh->status = ST_OK;
        _exit(0);
    }
    bool ok = fork_end(o, pid);
    o.trace = stream_trace(sc);
    o.nontrivial = o.faults[F_JITTER] + o.faults[F_MIGRATE] + o.faults[F_RELOC] > 0;
    if (ok) o.status = ST_OK;
}

static std::string cname(const Call & c) { return op_id(c.op) + " n=" + std::to_string(c.n); }

// ================================================================ C06 meters and reductions
// cells: one 16 byte pair per voice, adjacent
static uint32_t cell0(int t, unsigned z) { (void)z; return 4096 + t * 16; }

static void gen_C06(Script & sc, Rng & r)
{
    std::vector<const Op *> pool;
    for (const Op * o : g_ops) if (o->cls == K_PEAK || o->cls == K_RMS || o->cls == K_HRED || o->cls == K_HRED2) pool.push_back(o);
    if (pool.empty()) return;
    sc.nt = r.range(1, 4); sc.garbage = r.next();
    const Op * vop[MAXT]; int mode[MAXT];
    for (int t = 0; t < sc.nt; ++t) {
        vop[t] = t == 0 ? pool[sc.seed % pool.size()] : pool[r.below(pool.size())];
        mode[t] = int(r.below(3));                            // 0 integers (sums exact), 1 audio, 2 anything but NaN
        sc.mxcsr[t] = mode[t] == 0 ? draw_mxcsr(r) : 0x1f80;
    }
    int nb = r.range(10, 60), big = draw_big(r, sc.seed, pool.size());
    for (int k = 0; k < nb; ++k) {
        Call c; c.task = int(r.below(sc.nt));
        const Op * op = vop[c.task];
        c.op = variant_of(r, op);
        if ((op->cls == K_PEAK || op->cls == K_RMS) && r.chance(10)) for (const Op * o : pool) if (o->cls == (op->cls == K_PEAK ? K_RMS : K_PEAK) && o->f64 == op->f64 && r.chance(50)) c.op = o;
        if (big && k == nb / 2) { c.task = 0; c.op = vop[0]; }
        c.n = stream_n(r, c.op, k == nb / 2 ? big : 0);
        static const uint8_t c1[] = { D_UNIT, D_AUDIO, D_MOSTLY }, c2[] = { D_NONNAN, D_BITS, D_WIDE, D_DENORM, D_THRESH, D_CONST };
        c.cls = mode[c.task] == 0 ? uint8_t(100 + r.below(4)) : mode[c.task] == 1 ? c1[r.below(2)] : c2[r.below(6)];
        c.seed = r.next();
        c.o0 = cell0(c.task, 0); c.o1 = c.o0 + 8;
        c.in[0] = slot_off(r, 2 + int(r.below(2)), std::max<uint32_t>(c.op->in_align, esz(c.op)));
        if (k == 0 || r.chance(15)) { c.flags |= FL_RESET; c.s[0] = r.chance(50) ? 0 : double(r.below(2000)) / 8; c.s[1] = 0; }
        else if (r.chance(10)) c.flags |= FL_DECAY;
        if (r.chance(5)) c.flags |= FL_XRUN;
        sc.calls.push_back(c);
    }
    sc.used = STREAM_SIZE;
}

static uint8_t g_cells[MAXT * 16];      // shadow
static struct { long double maxabs, mx, mn, sum, sumsq, sumabs, last; bool ints; } g_m;

static void c06_start(const Script &) { memset(arena() + 4096 - 64, 0xff, MAXT * 16 + 128); memset(arena() + 4096, 0, MAXT * 16); memset(g_cells, 0, sizeof g_cells); }

static void fill06(const Call & c)
{
    const bool f = c.op->f64; uint8_t * p = arena() + c.in[0];
    if (c.cls >= 100) {
        Rng r(c.seed); int lim = c.cls == 100 ? 1 : c.cls == 101 ? 3 : 8, bias = c.cls == 103 ? -9 : 0;
        for (uint32_t i = 0; i < c.n; ++i) st(p, f, i, double(r.range(-lim, lim) + bias));
    } else fill_data(p, c.n, f, c.cls, c.seed);
    if (c.cls == D_CONST || c.cls == D_MOSTLY || c.cls == D_BITS) for (uint32_t i = 0; i < c.n; ++i) { double v = ld(p, f, i); if (v != v) st(p, f, i, -2.0); }
    poison(c.in[0], c.n * esz(c.op));
}

static void c06_before(Task & t, const Call & c)
{
    const bool f = c.op->f64;
    const bool carried = c.op->cls == K_PEAK || c.op->cls == K_RMS;
    if (carried) {
        if (c.flags & FL_RESET) { st(arena() + c.o0, f, 0, c.s[0]); st(arena() + c.o1, f, 0, c.s[1]); }
        else if (c.flags & FL_DECAY) { st(arena() + c.o0, f, 0, ld(arena() + c.o0, f, 0) * 0.5); st(arena() + c.o1, f, 0, 0); }
        // a cell that an uncarried reduction used (possible after minimisation) is not a meter state
        double p = ld(arena() + c.o0, f, 0), s = ld(arena() + c.o1, f, 0);
        if (!(p >= 0)) st(arena() + c.o0, f, 0, 0);
        if (!(s >= 0)) st(arena() + c.o1, f, 0, 0);
    }
    (void)t;
    fill06(c);
    memcpy(g_cells, arena() + 4096, sizeof g_cells);
    const uint8_t * p = arena() + c.in[0];
    g_m.maxabs = 0; g_m.mx = -INFINITY; g_m.mn = INFINITY; g_m.sum = g_m.sumsq = g_m.sumabs = 0;
    for (uint32_t i = 0; i < c.n; ++i) {
        long double v = ld(p, f, i), a = fabsl(v);
        if (a > g_m.maxabs) g_m.maxabs = a;
        if (v > g_m.mx) g_m.mx = v;
        if (v < g_m.mn) g_m.mn = v;
        g_m.sum += v; g_m.sumabs += a; g_m.sumsq += v * v; g_m.last = a;
    }
    g_m.ints = c.cls >= 100;
}

static void c06_after(Task & t, const Call & c)
{
    const bool f = c.op->f64; const int z = f ? 8 : 4;
    const long double eps = f ? 0x1p-52L : 0x1p-23L, exact_to = f ? 0x1p53L : 0x1p24L, big = f ? 1e308L : 3.4e38L, tiny = f ? 0x1p-1074L : 0x1p-149L;
    const uint8_t * pre = g_cells + (c.o0 - 4096);
    double got0 = ld(arena() + c.o0, f, 0), got1 = ld(arena() + c.o1, f, 0);
    auto want = [&](const char * what, double got, long double w) { g_sh->checks++; if (!(got == double(w))) violation("meter", "block %d of voice %d, %s: %s is %.17g, the samples seen give %.17Lg", int(t.next), t.id, cname(c).c_str(), what, got, w); };
    auto sumlike = [&](const char * what, double got, long double init, long double w, long double mag) {
        g_sh->checks++;
        long double total = init + w, m = fabsl(init) + mag;
        if (g_m.ints && m < exact_to && init == floorl(init)) { if (!(got == double(total))) violation("meter", "block %d of voice %d, %s: %s is %.17g, exact value %.17Lg", int(t.next), t.id, cname(c).c_str(), what, got, total); return; }
        if (m > big * 0.5L || m != m) return;             // overflow: rounding decides
        if (!(fabsl(got - total) <= eps * (c.n + 16) * m + tiny * (c.n + 16))) violation("meter", "block %d of voice %d, %s: %s is %.17g, expected %.17Lg", int(t.next), t.id, cname(c).c_str(), what, got, total);
    };
    switch (c.op->cls) {
    case K_PEAK: want("peak", got0, std::max<long double>(ld(pre, f, 0), g_m.maxabs)); want("returned last magnitude", t.ret, g_m.last); break;
    case K_RMS: want("peak", got0, std::max<long double>(ld(pre, f, 0), g_m.maxabs)); sumlike("squared sum", got1, ld(pre + 8, f, 0), g_m.sumsq, g_m.sumsq); break;
    case K_HRED:
        if (!strcmp(c.op->name, "hmax")) want("maximum", got0, g_m.mx);
        else if (!strcmp(c.op->name, "hmin")) want("minimum", got0, g_m.mn);
        else sumlike("sum", got0, 0, g_m.sum, g_m.sumabs);
        break;
    case K_HRED2:
        if (!strcmp(c.op->name, "hminmax")) { want("minimum", got0, g_m.mn); want("maximum", got1, g_m.mx); }
        else { want("maximum", got0, g_m.mx); sumlike("sum", got1, 0, g_m.sum, g_m.sumabs); }
        break;
    }
    // nobody else's cell moved
    memcpy(g_cells + (c.o0 - 4096), arena() + c.o0, z);
    if (c.op->cls == K_RMS || c.op->cls == K_HRED2) memcpy(g_cells + (c.o1 - 4096), arena() + c.o1, z);
    if (memcmp(g_cells, arena() + 4096, sizeof g_cells)) violation("meter-neighbour", "block %d of voice %d, %s changed another voice's meter", int(t.next), t.id, cname(c).c_str());
    ev(hash_bytes(g_cells, sizeof g_cells));
}

static void exec_C06(Script & sc, Outcome & o) { run_stream(sc, o, c06_start, c06_before, c06_after); }

#include "stream2.inc"

extern const Property stream_props[] = {
    { "C06", gen_C06, exec_C06 }, { "C07", gen_C07, exec_C07 }, { "C08", gen_C08, exec_C08 }, { "C09", gen_C09, exec_C09 }, { "C10", gen_C10, exec_C10 },
    { nullptr, nullptr, nullptr }
};

} // namespace sim
