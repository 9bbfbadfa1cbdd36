// C01..C05: real calls on scheduled threads, decided against solo executions of the same calls in a fresh process image.
#include "props.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

// ---------------------------------------------------------------- workload
uint32_t draw_n(Rng & r, const Op * op, uint32_t maxn)
{
    if (op->fixed_n) return op->fixed_n;
    uint32_t g = op->gran, m = std::max<uint32_t>(1, maxn / g), k;
    switch (r.below(6)) {
    case 0: k = 1; break;
    case 1: k = r.range(1, std::min<int>(3, m)); break;
    case 2: { static const int fav[] = { 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129 }; k = fav[r.below(18)]; break; }
    default: k = r.range(1, std::min<uint32_t>(m, 40)); break;
    case 5: k = r.range(1, m); break;
    }
    if (k > m) k = 1 + k % m;
    return k * g;
}

uint32_t draw_mxcsr(Rng & r)
{
    if (r.chance(40)) return 0x1f80;
    return 0x1f80 | uint32_t(r.below(4)) << 13 | (r.chance(40) ? 0x8000 : 0) | (r.chance(40) ? 0x40 : 0);
}

double nudged(Rng & r, double v, bool f64)
{
    if (v == 0 || !(std::fabs(v) < 1e30)) return v;
    if (r.chance(30)) return f64 ? std::nextafter(v, r.chance(50) ? 1e300 : -1e300) : double(std::nextafter(float(v), r.chance(50) ? 1e30f : -1e30f));
    v *= 1 + (r.chance(50) ? 1 : -1) * std::ldexp(1.0, -(f64 ? r.range(16, 52) : r.range(10, 23)));
    return f64 ? v : double(float(v));
}

void draw_scalars(Rng & r, Call & c, int cls)
{
    for (unsigned i = 0; i < 4; ++i) {
        double v = gen_value(r, cls == D_CONST ? D_UNIT : cls, c.op->f64);
        double s = (r.unit() * 2 - 1) * 0.01;
        if (c.op->f64) { c.s[i] = v; c.sl[i] = s; } else { c.s[i] = float(v); c.sl[i] = float(s); }
    }
}

// every fourth visit of an entry point uses long blocks
bool strat_long(uint64_t seed, size_t pool) { return seed / pool % 4 == 3; }
uint32_t long_n(Rng & r, const Op * op)
{
    if (op->fixed_n) return op->fixed_n;
    if (r.chance(25)) {                  // sizes a host or a code path would single out, and their neighbours
        static const uint32_t fav[] = { 192, 256, 384, 441, 480, 500, 512, 576, 768, 882, 960, 1000, 1024, 1152, 1536, 1920, 2048, 2304, 3072, 4000, 4096, 4410, 4800, 5120, 6144, 8000, 8192, 9600, 10000, 12288, 16384 };
        uint32_t k = fav[r.below(sizeof fav / sizeof fav[0])] / op->gran;
        if (r.chance(50)) k += r.chance(50) ? 1 : k > 1 ? -1 : 0;
        return std::max<uint32_t>(1, k) * op->gran;
    }
    uint32_t lo, hi;
    switch (r.below(8)) {
    case 0: case 1: lo = 130; hi = 600; break;
    case 2: case 3: case 4: lo = 600; hi = 2200; break;
    case 5: lo = 9000; hi = 19000; break;
    default: lo = 2200; hi = 9000; break;
    }
    uint32_t n = lo + uint32_t(r.below(hi - lo));
    return std::max<uint32_t>(1, n / op->gran) * op->gran;
}

const Op * strat_op(uint64_t seed, const std::vector<const Op *> & pool, Rng &)
{
    return pool[seed % pool.size()];
}

static const Op * sibling(Rng & r, const Op * op)
{
    std::vector<const Op *> v;
    for (const Op * o : g_ops) if (!strcmp(o->name, op->name) && o != op) v.push_back(o);
    return v.empty() ? op : v[r.below(v.size())];
}

static int draw_cls(Rng & r)
{
    static const int w[] = { D_UNIT, D_UNIT, D_UNIT, D_DYADIC, D_WIDE, D_SPECIAL, D_BITS, D_CONST, D_MOSTLY, D_THRESH, D_POS, D_AUDIO, D_AUDIO, D_INTS, D_DENORM };
    return w[r.below(sizeof(w) / sizeof(w[0]))];
}

struct Layout { uint32_t out, in, in_end; };

// Places the buffers of one call. Outputs of all tasks are packed back to back; inputs live in a shared read-only region.
static void place_call(Script & sc, Rng & r, Call & c, Layout & L, bool allow_alias, bool allow_chain)
{
    const unsigned z = esz(c.op);
    auto alloc_out = [&](uint32_t len, uint32_t al) { L.out = (L.out + al - 1) / al * al; uint32_t o = L.out; L.out += len; return o; };
    auto alloc_in = [&](uint32_t len, uint32_t al) {
        if (r.chance(30)) L.in += uint32_t(r.below(8)) * z;
        L.in = (L.in + al - 1) / al * al; uint32_t o = L.in; L.in += len; return o; };
    Access a = access_of(c);
    const bool blockout = a.nw && a.wr[0].len == c.n * z && c.op->cls != K_PEAK && c.op->cls != K_HRED;
    uint32_t olen = (c.op->cls == K_PEAK || c.op->cls == K_RMS || c.op->cls == K_HRED || c.op->cls == K_HRED2) ? z : c.n * z;
    c.o0 = alloc_out(olen, std::max<uint32_t>(c.op->out_align, z));
    if (c.op->cls == K_PAN || c.op->cls == K_RMS || c.op->cls == K_HRED2) c.o1 = alloc_out(olen, std::max<uint32_t>(c.op->out_align, z));
    const int cls = c.cls;
    bool carried = c.op->cls == K_ADD || c.op->cls == K_PEAK || c.op->cls == K_RMS, filled = false;
    for (unsigned i = 0; i < nkinds(c.op); ++i) {
        if (c.op->kinds[i] != 'v') continue;
        if (allow_alias && c.op->cls == K_PAN && r.chance(20)) { c.in[i] = r.chance(50) ? c.o0 : c.o1; if (c.in[i] % c.op->in_align == 0) { sc.fills.push_back(Fill{ c.in[i], c.n, c.op->f64, uint8_t(cls), r.next() }); continue; } }
        if (allow_alias && blockout && (c.op->cls == K_ELEM || c.op->cls == K_ADD) && r.chance(20)) { c.in[i] = c.o0; if (!filled) { sc.fills.push_back(Fill{ c.o0, c.n, c.op->f64, uint8_t(cls), r.next() }); filled = true; } continue; }
        if (allow_chain && r.chance(15)) {   // read the result of an earlier call of the same task
            const Call * prev = nullptr;
            for (const Call & p : sc.calls) if (p.task == c.task && p.op->f64 == c.op->f64 && (p.op->cls == K_ELEM || p.op->cls == K_FILL || p.op->cls == K_COPY) && p.n >= c.n && p.o0 % c.op->in_align == 0) prev = &p;
            if (prev) { c.in[i] = prev->o0; continue; }
        }
        if (r.chance(25)) {                  // share a read-only input with any other call
            const Fill * sh = nullptr; int seen = 0;
            for (const Fill & f : sc.fills) if (f.off >= L.in_end && f.f64 == c.op->f64 && f.n >= c.n && f.off % c.op->in_align == 0 && r.below(++seen) == 0) sh = &f;
            if (sh) { c.in[i] = sh->off; continue; }
        }
        c.in[i] = alloc_in(c.n * z, std::max<uint32_t>(c.op->in_align, z));
        sc.fills.push_back(Fill{ c.in[i], c.n, c.op->f64, uint8_t(cls), r.next() });
    }
    if (carried && !filled) {
        sc.fills.push_back(Fill{ c.o0, olen / z, c.op->f64, uint8_t(D_POS), r.next() });
        if (c.op->cls == K_RMS) sc.fills.push_back(Fill{ c.o1, olen / z, c.op->f64, uint8_t(D_POS), r.next() });
    }
}


static void gen_conc(Script & sc, Rng & r, int tmin, int tmax, int cmin, int cmax, uint32_t maxn, bool alias, bool hostile)
{
    sc.nt = r.range(tmin, tmax);
    sc.garbage = r.next();
    const Op * main_op = strat_op(sc.seed, g_ops, r);
    const bool big = strat_long(sc.seed, g_ops.size()) && !main_op->fixed_n;
    const uint32_t OUT_REGION = big ? 320 << 10 : 48 << 10, USED = big ? 1200 << 10 : 160 << 10;
    Layout L; L.out = 64 + uint32_t(r.below(8)) * 8; L.in = OUT_REGION; L.in_end = OUT_REGION;
    int ncalls[MAXT], maxc = 0;
    for (int t = 0; t < sc.nt; ++t) { sc.mxcsr[t] = draw_mxcsr(r); ncalls[t] = r.range(cmin, cmax); maxc = std::max(maxc, ncalls[t]); }
    const bool twin = r.chance(50);          // all tasks use the same block length
    uint32_t twin_n = 0;
    for (int k = 0; k < maxc; ++k)
        for (int t = 0; t < sc.nt; ++t) {
            if (k >= ncalls[t]) continue;
            Call c; c.task = t;
            unsigned w = unsigned(r.below(100));
            c.op = (w < 72 || (k == 0 && t == 0)) ? main_op : w < 86 ? sibling(r, main_op) : g_ops[r.below(g_ops.size())];
            c.n = big && c.op == main_op && (sc.calls.empty() || r.chance(50)) ? long_n(r, c.op) : draw_n(r, c.op, maxn);
            if (twin && c.op == main_op) { if (!twin_n) twin_n = c.n; c.n = twin_n; }
            if (L.out + 2 * c.n * 8 + 128 > OUT_REGION || L.in + 4 * c.n * 8 + 512 > USED) { if (!sc.calls.empty()) continue; c.n = c.op->fixed_n ? c.op->fixed_n : c.op->gran; }
            c.cls = uint8_t(hostile && r.chance(60) ? (r.chance(50) ? D_SPECIAL : r.chance(50) ? D_BITS : D_WIDE) : draw_cls(r));
            draw_scalars(r, c, r.chance(70) ? D_UNIT : c.cls);
            if (!sc.calls.empty() && r.chance(20)) {      // constants shared with an earlier call, or nearly so
                const Call & p = sc.calls[r.below(sc.calls.size())];
                if (p.op->f64 == c.op->f64) for (int i = 0; i < 4; ++i) {
                    if (r.chance(70)) c.s[i] = r.chance(60) ? p.s[i] : nudged(r, p.s[i], c.op->f64);
                    if (r.chance(70)) c.sl[i] = r.chance(60) ? p.sl[i] : nudged(r, p.sl[i], c.op->f64);
                }
            }
            place_call(sc, r, c, L, alias, true);
            sc.calls.push_back(c);
        }
    sc.used = USED;
}

void init_arena(const Script & sc)
{
    // unowned bytes hold a known pattern
    uint32_t used = sc.used;
    uint64_t * p = reinterpret_cast<uint64_t *>(arena());
    for (uint32_t i = 0; i < used / 8; ++i) p[i] = 0xC5A35C3AA5C35A3Cull ^ (uint64_t(i) * 0x0101010101ull);
    for (const Fill & f : sc.fills) fill_data(arena() + f.off, f.n, f.f64, f.cls, f.seed);
}

// ---------------------------------------------------------------- forking
void fork_begin()
{
    g_sh->status = ST_NONE; g_sh->digest = 0; g_sh->steps = g_sh->samples = g_sh->checks = g_sh->switches = 0;
    memset(g_sh->faults, 0, sizeof g_sh->faults); g_sh->blob_len = 0; g_sh->cls[0] = g_sh->msg[0] = 0;
    memset(g_sh->call_steps, 0, sizeof g_sh->call_steps); g_sh->nhot = 0; g_sh->ok_calls = 0;
}
int fork_child()
{
    fork_begin();
    int pid = fork();
    if (pid == 0) { install_handlers(); return 0; }
    return pid;
}
void merge(Outcome & o)
{
    o.steps += g_sh->steps; o.samples += g_sh->samples; o.checks += g_sh->checks; o.switches += g_sh->switches; o.runs++;
    for (int i = 0; i < F_COUNT; ++i) o.faults[i] += g_sh->faults[i];
    o.digest = mix64(o.digest, g_sh->digest);
}
bool fork_end(Outcome & o, int pid)      // true: the run completed without violation
{
    int st = 0;
    if (pid < 0) { o.status = ST_ERROR; o.msg = "fork failed"; return false; }
    while (waitpid(pid, &st, 0) < 0) {}
    merge(o);
    if (g_sh->status == ST_OK) return true;
    o.status = g_sh->status == ST_NONE ? ST_ERROR : g_sh->status;
    o.cls = g_sh->cls; o.msg = g_sh->status == ST_NONE ? "run process died (wait status " + std::to_string(st) + ")" : g_sh->msg;
    return false;
}

// ---------------------------------------------------------------- solo oracle
struct Solo {
    std::vector<std::vector<uint8_t>> out;        // per call: bytes of its output ranges after the call
    std::vector<uint64_t> steps;                  // per call
    std::vector<uint64_t> hot[MAXT];              // per task: steps that touch memory other calls can see
    bool any_hot;
};
static Solo g_solo;

static void append_out(const Call & c)
{
    Access a = access_of(c);
    for (int i = 0; i < a.nw; ++i) {
        if (g_sh->blob_len + a.wr[i].len > sizeof g_sh->blob) { g_sh->status = ST_ERROR; snprintf(g_sh->msg, sizeof g_sh->msg, "result block full"); _exit(0); }
        memcpy(g_sh->blob + g_sh->blob_len, arena() + a.wr[i].off, a.wr[i].len);
        g_sh->blob_len += a.wr[i].len;
    }
}
static void solo_after(Task &, const Call & c) { append_out(c); }

static bool solo_runs(const Script & sc, Outcome & o, bool watch)
{
    g_solo.out.assign(sc.calls.size(), std::vector<uint8_t>());
    g_solo.steps.assign(sc.calls.size(), 0);
    g_solo.any_hot = false;
    for (int t = 0; t < MAXT; ++t) g_solo.hot[t].clear();
    for (int t = 0; t < sc.nt; ++t) {
        bool any = false;
        for (const Call & c : sc.calls) any |= c.task == t;
        if (!any) continue;
        int pid = fork_child();
        if (pid == 0) {
            static Engine e;
            e.after = solo_after;
            e.dirty = true; e.track = true;
            (void)watch;
            engine_setup(e, sc);
            Task & tk = e.tasks[t];
            t_cur = &tk; tk.left = ~0ull;
            if (tk.calls.size() == 1) run_call(tk);
            else while (tk.next < tk.calls.size()) {       // every call in a process that has made no other
                const int k = tk.calls[tk.next]; const size_t b0 = g_sh->blob_len;
                int st, ch = fork();
                if (ch == 0) { install_handlers(); run_call(tk); g_sh->ok_calls++; _exit(0); }
                if (ch < 0) { g_sh->status = ST_ERROR; snprintf(g_sh->msg, sizeof g_sh->msg, "fork failed"); _exit(0); }
                while (waitpid(ch, &st, 0) < 0) {}
                if (g_sh->ok_calls != tk.next + 1) _exit(0);      // a violation or a crash has been recorded
                Access a = access_of(sc.calls[k]); size_t p = b0;
                for (int i = 0; i < a.nw; p += a.wr[i].len, ++i) memcpy(arena() + a.wr[i].off, g_sh->blob + p, a.wr[i].len);
                if (k < MAXCALLS) tk.total += g_sh->call_steps[k];
                ++tk.next;
            }
            g_sh->digest = mix64(g_sh->digest, hash_bytes(g_sh->blob, g_sh->blob_len));
            g_sh->status = ST_OK;
            _exit(0);
        }
        if (!fork_end(o, pid)) return false;
        size_t p = 0;
        g_solo.hot[t].assign(g_sh->hot, g_sh->hot + std::min<uint32_t>(g_sh->nhot, 64));
        if (g_sh->nhot) { g_solo.any_hot = true; o.faults[F_AIM]++; }
        for (size_t k = 0; k < sc.calls.size(); ++k) {
            if (sc.calls[k].task != t) continue;
            Access a = access_of(sc.calls[k]);
            size_t len = 0; for (int i = 0; i < a.nw; ++i) len += a.wr[i].len;
            g_solo.out[k].assign(g_sh->blob + p, g_sh->blob + p + len); p += len;
            g_solo.steps[k] = k < MAXCALLS ? g_sh->call_steps[k] : 0;
        }
    }
    return true;
}

static uint64_t task_steps(const Script & sc, int t) { uint64_t s = 0; for (size_t k = 0; k < sc.calls.size(); ++k) if (sc.calls[k].task == t) s += g_solo.steps[k]; return s; }

// expected arena after all tasks completed, whatever the interleaving
static void expected_arena(const Script & sc, std::vector<uint8_t> & ex)
{
    ex.assign(arena(), arena() + sc.used);
    for (size_t k = 0; k < sc.calls.size(); ++k) {
        Access a = access_of(sc.calls[k]); size_t p = 0;
        for (int i = 0; i < a.nw; ++i) { memcpy(&ex[a.wr[i].off], &g_solo.out[k][p], a.wr[i].len); p += a.wr[i].len; }
    }
}

static std::string owner_of(const Script & sc, uint32_t off)
{
    for (size_t k = 0; k < sc.calls.size(); ++k) {
        Access a = access_of(sc.calls[k]);
        for (int i = 0; i < a.nw; ++i) if (off >= a.wr[i].off && off < a.wr[i].off + a.wr[i].len)
            return "output of task " + std::to_string(sc.calls[k].task) + " call #" + std::to_string(k) + " " + op_id(sc.calls[k].op) + " element " + std::to_string((off - a.wr[i].off) / esz(sc.calls[k].op));
    }
    return "memory no call owns";
}

static void compare_arena(const Script & sc, const std::vector<uint8_t> & ex, const char * cls)
{
    g_sh->checks++;
    ev(hash_bytes(arena(), sc.used));
    if (!memcmp(arena(), ex.data(), sc.used)) return;
    for (uint32_t i = 0; i < sc.used; ++i)
        if (arena()[i] != ex[i]) { violation(cls, "arena+%u (%s) differs from the solo execution", i, owner_of(sc, i).c_str()); return; }
}

// ---------------------------------------------------------------- schedules
// Where to stop a task: at any step, or, when its calls touch memory that other calls can see, mostly next to such an access.
static uint64_t stop_point(Rng & r, const Script & sc, int t)
{
    if (!g_solo.hot[t].empty() && r.chance(75)) return g_solo.hot[t][r.below(g_solo.hot[t].size())] + r.below(4);
    return 1 + r.below(std::max<uint64_t>(1, task_steps(sc, t)));
}
static int attempts() { return g_solo.any_hot ? 10 : 1; }

// In the middle of it all, somebody makes many short calls of the first operation: on another thread, or in an interrupt on top of a suspended call.
static void add_burst(Script & sc, Rng & r, bool nest)
{
    if (sc.slices.empty() || !r.chance(g_solo.any_hot ? 40 : 6)) return;
    size_t at = 1 + r.below(sc.slices.size());
    int host = nest && r.chance(50) ? sc.slices[at - 1].task : int(MAXT);
    sc.slices.insert(sc.slices.begin() + at, Slice{ SL_AGE, host, 2 + r.below(r.chance(80) ? 40 : 400), 0 });
}

static void gen_schedule(Script & sc, Rng & r, bool nest)
{
    sc.slices.clear();
    int T = sc.nt;
    uint64_t S[MAXT]; uint64_t tot = 0;
    for (int t = 0; t < T; ++t) { S[t] = task_steps(sc, t); tot += S[t]; }
    unsigned w = unsigned(r.below(100));
    if (g_solo.any_hot && T > 1 && r.chance(40)) {       // tasks advance from one shared access to the next, in any order
        uint64_t pos[MAXT] = { 0 };
        int k = r.range(2, 12);
        for (int i = 0; i < k; ++i) {
            int t = int(r.below(T)); uint64_t to = stop_point(r, sc, t);
            if (to <= pos[t]) to = pos[t] + 1 + r.below(4);
            sc.slices.push_back(Slice{ SL_RUN, t, to - pos[t], 0 }); pos[t] = to;
        }
    } else if (nest && w < 15 && T > 1) {                // interrupt handler on top of a half finished call
        int h = int(r.below(T)), g = (h + 1 + int(r.below(T - 1))) % T;
        sc.slices.push_back(Slice{ SL_RUN, h, stop_point(r, sc, h), 0 });
        sc.slices.push_back(Slice{ SL_NEST, h, 0, g });
        if (r.chance(50)) { sc.slices.push_back(Slice{ SL_RUN, h, 1 + r.below(std::max<uint64_t>(1, S[h] / 2)), 0 }); sc.slices.push_back(Slice{ SL_NEST, h, 0, g }); }
    } else if (w < 45) {                                 // sandwich: stop one task anywhere, let the others run to completion
        int h = int(r.below(T));
        sc.slices.push_back(Slice{ SL_RUN, h, stop_point(r, sc, h), 0 });
        for (int t = 0; t < T; ++t) if (t != h) {
            if (r.chance(30)) { sc.slices.push_back(Slice{ SL_RUN, t, stop_point(r, sc, t), 0 }); sc.slices.push_back(Slice{ SL_RUN, h, 1 + r.below(8), 0 }); }
            sc.slices.push_back(Slice{ SL_RUN, t, S[t] + 1000000, 0 });
        }
    } else if (w < 70) {                                 // lockstep round robin
        uint64_t q = 1 + r.below(4);
        if (tot / q > 600) q = tot / 600 + 1;
        uint64_t skew = r.below(12);
        if (skew) sc.slices.push_back(Slice{ SL_RUN, 0, skew, 0 });
        for (uint64_t d = 0; d < tot; d += q * T) for (int t = 0; t < T; ++t) sc.slices.push_back(Slice{ SL_RUN, t, q, 0 });
    } else {                                             // random preemptions
        int k = r.range(2, 24);
        for (int i = 0; i < k; ++i) {
            int t = int(r.below(T));
            uint64_t len = r.chance(50) ? 1 + r.below(8) : 1 + r.below(std::max<uint64_t>(1, S[t]));
            sc.slices.push_back(Slice{ SL_RUN, t, len, 0 });
        }
    }
    add_burst(sc, r, nest);
    sc.have_slices = true;
}

static void do_slices(Engine & e, const Script & sc, bool (*drainable)(int) = nullptr)
{
    for (const Slice & s : sc.slices) {
        if (s.task < 0 || (s.task >= MAXT && s.kind != SL_AGE)) continue;
        switch (s.kind) {
        case SL_RUN: {
            Task & t = e.tasks[s.task];
            run_slice(e, s.task, s.k);
            if (t.incall && !t.done) g_sh->faults[F_PREEMPT]++;
            break; }
        case SL_AGE: burst(e, s.task, uint32_t(s.k)); break;
        case SL_NEST: nest_slice(e, s.task, s.arg); break;
        case SL_KILL: if (e.tasks[s.task].incall && !e.tasks[s.task].done) { e.tasks[s.task].dead = true; g_sh->faults[F_KILL]++; ev(0x3000 + s.task); } break;
        case SL_RESTART:      // a new thread repeats the interrupted call and what follows
            if (e.tasks[s.task].dead) { Task & t = e.tasks[s.task]; start_task(e, s.task, t.next); g_sh->faults[F_RESTART]++; ev(0x4000 + s.task); }
            break;
        }
        if (violated()) _exit(0);
    }
    for (int round = 0, idle = 0; ; ++round) {           // bounded progress once faults stop
        bool open = false, moved = false;
        for (int t = 0; t < sc.nt; ++t) {
            Task & k = e.tasks[t];
            if (!k.started || k.done || k.dead || (drainable && !drainable(t))) continue;
            open = true;
            uint64_t b = k.total;
            run_slice(e, t, 1u << 22);
            if (k.total != b || k.done) moved = true;
        }
        if (!open) break;
        if (!moved && ++idle > 3) { violation("no-progress", "every remaining task is blocked on a stalled or dead peer"); _exit(0); }
    }
}

static uint64_t script_trace(const Script & sc)
{
    uint64_t h = 7;
    for (const Call & c : sc.calls) { h = mix64(h, hash_bytes(c.op->name, strlen(c.op->name))); h = mix64(h, (uint64_t(c.n) << 8) + c.task * 16 + c.op->variant * 2 + c.op->f64); h = mix64(h, c.op->kinds[0] * 256 + (c.op->kinds[0] ? c.op->kinds[1] : 0)); }
    for (const Slice & s : sc.slices) h = mix64(h, (uint64_t(s.kind) << 60) ^ (uint64_t(s.task) << 50) ^ s.k ^ (uint64_t(s.arg) << 40));
    return h;
}

// ================================================================ C01 isolation
static void gen_C01(Script & sc, Rng & r) { gen_conc(sc, r, 2, 4, 1, 3, r.chance(85) ? 64 : 260, true, false); }

static void exec_C01(Script & sc, Outcome & o)
{
    init_arena(sc);
    if (!solo_runs(sc, o, false)) return;
    const bool fresh = !sc.have_slices;
    std::vector<uint8_t> ex; expected_arena(sc, ex);
    for (int att = 0, n = fresh ? attempts() : 1; att < n; ++att) {
        if (fresh) { Rng r((sc.seed ^ 0xC01C01ull) + att * 0x9e3779b97f4a7c15ull); gen_schedule(sc, r, true); }
        int pid = fork_child();
        if (pid == 0) {
            static Engine e;
            e.policy_writes = true; e.dirty = true;
            Script sc2 = sc; sc2.garbage ^= 0x5a5a5a5a1234567ull;      // different stale memory than in the solo runs
            e.same_again = 1;
            engine_setup(e, sc2);
            age_process(e, sc2);
            for (int t = 0; t < sc.nt; ++t) if (!e.tasks[t].calls.empty()) { start_task(e, t, 0); if (sc.mxcsr[t] != 0x1f80) g_sh->faults[F_FPENV]++; }
            g_sh->faults[F_DIRTY] += sc.calls.size();
            do_slices(e, sc2);
            compare_arena(sc, ex, "interference");
            if (!violated()) g_sh->status = ST_OK;
            _exit(0);
        }
        bool ok = fork_end(o, pid);
        o.trace = script_trace(sc);
        o.nontrivial = o.faults[F_PREEMPT] + o.faults[F_NEST] > 0;
        if (!ok) return;
        o.status = ST_OK;
    }
}

// ================================================================ C02 containment
static void gen_C02(Script & sc, Rng & r)
{
    sc.nt = 1; sc.garbage = r.next(); sc.mxcsr[0] = r.chance(70) ? 0x1f80 : draw_mxcsr(r);
    uint32_t page = 1;
    const Op * main_op = strat_op(sc.seed, g_ops, r);
    int nc = r.range(4, 7);
    for (int k = 0; k < nc; ++k) {
        Call c; c.task = 0;
        c.op = k < 3 ? main_op : k == 3 ? sibling(r, main_op) : g_ops[r.below(g_ops.size())];
        const unsigned z = esz(c.op);
        c.n = k == 0 && strat_long(sc.seed, g_ops.size()) && !c.op->fixed_n && r.chance(6) ? (20000 + uint32_t(r.below(50000))) / c.op->gran * c.op->gran : k < 2 && strat_long(sc.seed, g_ops.size()) ? long_n(r, c.op) : draw_n(r, c.op, r.chance(85) ? 130 : 2100);
        c.cls = uint8_t(draw_cls(r));
        draw_scalars(r, c, r.chance(70) ? D_UNIT : c.cls);
        auto place = [&](uint32_t len, uint32_t al, char prot) {
            uint32_t np = (len + PAGE - 1) / PAGE + (r.chance(15) ? 1 : 0);
            uint32_t off;
            int side = int(r.below(5));
            if (side < 3 && len % al == 0) off = (page + np) * PAGE - len;             // ends at the guard page
            else if (side < 4) off = page * PAGE;                                       // starts at the guard page
            else { uint32_t slack = np * PAGE - len; off = page * PAGE + uint32_t(r.below(slack / al + 1)) * al; }
            sc.maps.push_back(Map{ page, np, prot });
            page += np + 1;
            return off;
        };
        bool cell = c.op->cls == K_PEAK || c.op->cls == K_RMS || c.op->cls == K_HRED || c.op->cls == K_HRED2;
        uint32_t olen = cell ? z : c.n * z;
        c.o0 = place(olen, std::max<uint32_t>(c.op->out_align, z), 'w');
        sc.fills.push_back(Fill{ c.o0, olen / z, c.op->f64, uint8_t(D_POS), r.next() });
        if (c.op->cls == K_PAN || c.op->cls == K_RMS || c.op->cls == K_HRED2) { c.o1 = place(olen, std::max<uint32_t>(c.op->out_align, z), 'w'); sc.fills.push_back(Fill{ c.o1, olen / z, c.op->f64, uint8_t(D_POS), r.next() }); }
        for (unsigned i = 0; i < nkinds(c.op); ++i) {
            if (c.op->kinds[i] != 'v') continue;
            if ((c.op->cls == K_ELEM || c.op->cls == K_ADD) && r.chance(12)) { c.in[i] = c.o0; continue; }
            if (c.op->cls == K_PAN && r.chance(12)) { c.in[i] = r.chance(50) ? c.o0 : c.o1; continue; }
            c.in[i] = place(c.n * z, std::max<uint32_t>(c.op->in_align, z), 'r');
            sc.fills.push_back(Fill{ c.in[i], c.n, c.op->f64, c.cls, r.next() });
        }
        sc.calls.push_back(c);
    }
    sc.used = (page + 1) * PAGE;
}

static void exec_C02(Script & sc, Outcome & o)
{
    init_arena(sc);
    sc.have_slices = true;
    int pid = fork_child();
    if (pid == 0) {
        static Engine e;
        e.policy_reads = e.policy_writes = true; e.dirty = true;
        engine_setup(e, sc);
        age_process(e, sc);
        std::vector<uint8_t> ex(arena(), arena() + sc.used);
        mprotect(arena(), ARENA_SIZE, PROT_NONE);
        for (const Map & m : sc.maps) { mprotect(arena() + m.page * PAGE, m.npages * PAGE, m.prot == 'r' ? PROT_READ : m.prot == 'w' ? PROT_READ | PROT_WRITE : PROT_NONE); g_sh->faults[F_GUARD] += 2; if (m.prot == 'r') g_sh->faults[F_RDONLY]++; }
        Task & t = e.tasks[0]; t_cur = &t; t.left = ~0ull;
        while (t.next < t.calls.size()) { g_sh->samples += sc.calls[t.calls[t.next]].n; run_call(t); g_sh->faults[F_DIRTY]++; }
        t_cur = nullptr;
        mprotect(arena(), sc.used, PROT_READ | PROT_WRITE);
        for (const Call & c : sc.calls) { Access a = access_of(c); for (int i = 0; i < a.nw; ++i) memcpy(&ex[a.wr[i].off], arena() + a.wr[i].off, a.wr[i].len); }
        g_sh->checks += sc.calls.size();
        compare_arena(sc, ex, "write-outside");
        if (!violated()) g_sh->status = ST_OK;
        _exit(0);
    }
    bool ok = fork_end(o, pid);
    o.trace = script_trace(sc);
    for (const Call & c : sc.calls) { Access a = access_of(c); for (int i = 0; i < a.nr; ++i) o.trace = mix64(o.trace, a.rd[i].off % (2 * PAGE)); }
    o.nontrivial = o.faults[F_GUARD] > 0;
    if (ok) o.status = ST_OK;
}

// ================================================================ C03 mid-call states, crash and restart
static bool reexecutable(const Call & c)
{
    if (c.op->cls == K_ADD || c.op->cls == K_PEAK || c.op->cls == K_RMS) return false;
    for (unsigned i = 0; i < nkinds(c.op); ++i) if (c.op->kinds[i] == 'v' && (c.in[i] == c.o0 || (c.op->cls == K_PAN && c.in[i] == c.o1))) return false;
    return true;
}

static void gen_C03(Script & sc, Rng & r) { gen_conc(sc, r, 1, 2, 1, 2, r.chance(80) ? 40 : 130, true, false); }

static void obs_before(Task & t, const Call & c)
{
    Access a = access_of(c); t.pre.clear();
    for (int i = 0; i < a.nw; ++i) t.pre.insert(t.pre.end(), arena() + a.wr[i].off, arena() + a.wr[i].off + a.wr[i].len);
    t.finflag.assign(t.pre.size() / esz(c.op), 0);
}

// Looks at the outputs of the call. Long blocks: at what was written since the last look, and at everything every 256 steps and at the end.
static void obs_check(Task & t)
{
    const Call & c = g_eng->sc->calls[t.cur];
    const unsigned z = esz(c.op);
    const std::vector<uint8_t> & fin = g_solo.out[t.cur];
    const bool part = fin.size() > 1100 && t.incall && (t.steps & 255);
    uint32_t wlo = t.wlo, whi = t.whi;
    t.wlo = ~0u; t.whi = 0;
    if (part && wlo >= whi) return;
    size_t p0 = 0;
    for (int i = 0; i < t.acc.nw; p0 += t.acc.wr[i].len, ++i) {
        const uint8_t * m = arena() + t.acc.wr[i].off;
        uint32_t b0 = 0, b1 = t.acc.wr[i].len;
        if (part) {
            if (whi <= t.acc.wr[i].off || wlo >= t.acc.wr[i].off + b1) continue;
            b0 = wlo > t.acc.wr[i].off ? (wlo - t.acc.wr[i].off) / z * z : 0;
            b1 = std::min(b1, (whi - t.acc.wr[i].off + z - 1) / z * z);
        }
        size_t p = p0 + b0, el = p / z;
        for (uint32_t b = b0; b < b1; b += z, p += z, ++el) {
            bool isf = !memcmp(m + b, &fin[p], z), isp = !memcmp(m + b, &t.pre[p], z);
            if (isf && (isp || t.finflag[el])) continue;
            if (isf) { t.finflag[el] = 1; continue; }
            if (isp && !t.finflag[el]) continue;
            violation(isp ? "reverted-sample" : "intermediate-sample", "task %d call #%d %s n=%u step %llu: output element %zu holds %.9g, neither its value before the call (%.9g) nor its final value (%.9g)%s",
                t.id, t.cur, op_id(c.op).c_str(), c.n, (unsigned long long)t.steps, el, ld(m + b, c.op->f64, 0), ld(&t.pre[p], c.op->f64, 0), ld(&fin[p], c.op->f64, 0), isp ? " (went back)" : "");
            _exit(0);
        }
    }
    g_sh->checks++;
}

static void exec_C03(Script & sc, Outcome & o)
{
    init_arena(sc);
    if (!solo_runs(sc, o, false)) return;
    const bool fresh = !sc.have_slices;
    std::vector<uint8_t> ex0; expected_arena(sc, ex0);
    for (int att = 0, na = fresh ? attempts() : 1; att < na; ++att) {
    if (fresh) {
        Rng r((sc.seed ^ 0xC03C03ull) + att * 0x9e3779b97f4a7c15ull);
        gen_schedule(sc, r, false);
        if (r.chance(70)) {      // kill one task in the middle of its work, then repeat what it was doing
            int t = int(r.below(sc.nt));
            std::vector<Slice> v;
            v.push_back(Slice{ SL_RUN, t, stop_point(r, sc, t), 0 });
            v.push_back(Slice{ SL_KILL, t, 0, 0 });
            if (r.chance(50)) v.push_back(Slice{ SL_RESTART, t, 0, 0 });
            size_t at = r.below(sc.slices.size() + 1);
            sc.slices.insert(sc.slices.begin() + at, v.begin(), v.end());
            if (!(v.back().kind == SL_RESTART)) sc.slices.push_back(Slice{ SL_RESTART, t, 0, 0 });
        }
        // restarting is only meaningful when the call can be repeated
        for (Slice & s : sc.slices) if (s.kind == SL_RESTART) { bool re = true; for (const Call & c : sc.calls) if (c.task == s.task) re &= reexecutable(c); if (!re) s.task = MAXT; }
        sc.slices.erase(std::remove_if(sc.slices.begin(), sc.slices.end(), [](const Slice & s) { return s.kind == SL_RESTART && s.task == MAXT; }), sc.slices.end());
    }
    std::vector<uint8_t> ex = ex0;
    int pid = fork_child();
    if (pid == 0) {
        static Engine e;
        e.policy_writes = true; e.dirty = true; e.before = obs_before; e.observe = obs_check;
        engine_setup(e, sc);
        age_process(e, sc);
        for (int t = 0; t < sc.nt; ++t) if (!e.tasks[t].calls.empty()) start_task(e, t, 0);
        do_slices(e, sc);
        // calls of tasks that were killed and not repeated may be incomplete, but every element is old or final (checked at every step);
        // everything else must be complete
        for (int t = 0; t < sc.nt; ++t) if (e.tasks[t].dead)
            for (size_t k = e.tasks[t].next; k < e.tasks[t].calls.size(); ++k) {
                const Call & c = sc.calls[e.tasks[t].calls[k]]; Access a = access_of(c);
                const uint8_t * pre = e.tasks[t].pre.data();
                if (k == e.tasks[t].next) {
                    e.tasks[t].cur = e.tasks[t].calls[k]; obs_check(e.tasks[t]);
                    (void)pre;
                }
                for (int i = 0; i < a.nw; ++i) memcpy(&ex[a.wr[i].off], arena() + a.wr[i].off, a.wr[i].len);
            }
        compare_arena(sc, ex, "incomplete-result");
        if (!violated()) g_sh->status = ST_OK;
        _exit(0);
    }
    bool ok = fork_end(o, pid);
    o.trace = script_trace(sc);
    o.nontrivial = o.faults[F_PREEMPT] + o.faults[F_KILL] > 0;
    if (!ok) return;
    o.status = ST_OK;
    }
}

// ================================================================ C04 wait-freedom, no OS, no allocation
static void gen_C04(Script & sc, Rng & r) { gen_conc(sc, r, 2, 4, 1, 2, r.chance(80) ? 64 : 520, true, true); }

static uint64_t linear_bound(const Call & c) { return uint64_t(c.n) * 400 + 4000; }

static uint32_t g_stalled;
static bool not_stalled(int t) { return !(g_stalled >> t & 1); }
static void c04_before(Task & t, const Call &) { t.limit = 2 * g_solo.steps[t.cur] + 256; }

static void exec_C04(Script & sc, Outcome & o)
{
    init_arena(sc);
    if (!solo_runs(sc, o, true)) return;
    for (size_t k = 0; k < sc.calls.size(); ++k)
        if (g_solo.steps[k] > linear_bound(sc.calls[k])) {
            o.status = ST_VIOLATION; o.cls = "not-linear";
            o.msg = "call #" + std::to_string(k) + " " + op_id(sc.calls[k].op) + " n=" + std::to_string(sc.calls[k].n) + " took " + std::to_string(g_solo.steps[k]) + " steps, bound " + std::to_string(linear_bound(sc.calls[k]));
            return;
        }
    const bool fresh = !sc.have_slices;
    for (int att = 0, na = fresh ? attempts() : 1; att < na; ++att) {
    if (fresh) {
        Rng r((sc.seed ^ 0xC04C04ull) + att * 0x9e3779b97f4a7c15ull);
        sc.slices.clear();
        if (r.chance(75)) {     // peers stop forever at arbitrary points; task order is random
            int alive = int(r.below(sc.nt));
            std::vector<int> ord; for (int t = 0; t < sc.nt; ++t) if (t != alive) ord.push_back(t);
            for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
            if (r.chance(30)) sc.slices.push_back(Slice{ SL_RUN, alive, stop_point(r, sc, alive), 0 });
            for (int t : ord) { sc.slices.push_back(Slice{ SL_RUN, t, stop_point(r, sc, t), 0 }); sc.slices.push_back(Slice{ SL_KILL, t, 0, 0 }); }
            add_burst(sc, r, false);
        } else gen_schedule(sc, r, false);
        sc.have_slices = true;
    }
    int pid = fork_child();
    if (pid == 0) {
        static Engine e;
        e.dirty = true; e.sud = true; e.rt_watch = true; e.before = c04_before;
        engine_setup(e, sc);
        age_process(e, sc);
        g_stalled = 0;
        for (int t = 0; t < sc.nt; ++t) if (!e.tasks[t].calls.empty()) start_task(e, t, 0);
        do_slices(e, sc, not_stalled);
        for (int t = 0; t < sc.nt; ++t) { if (e.tasks[t].dead) g_sh->faults[F_STALL]++; g_sh->checks += e.tasks[t].next; }
        ev(hash_bytes(arena(), sc.used));
        g_sh->status = ST_OK;
        _exit(0);
    }
    bool ok = fork_end(o, pid);
    o.trace = script_trace(sc);
    o.nontrivial = o.faults[F_PREEMPT] + o.faults[F_STALL] > 0;
    if (!ok) return;
    o.status = ST_OK;
    }
}

// ================================================================ C05 floating point environment
static bool c05_stepped(uint64_t seed) { return seed / g_ops.size() % 8 == 1; }
static void gen_C05(Script & sc, Rng & r)
{
    if (c05_stepped(sc.seed)) gen_conc(sc, r, 2, 2, 1, 2, 16, true, r.chance(50));
    else gen_conc(sc, r, 2, 3, 1, 3, r.chance(85) ? 64 : 260, true, r.chance(50));
    for (int t = 0; t < sc.nt; ++t) {
        sc.mxcsr[t] = 0x1f80 | uint32_t(r.below(4)) << 13 | (r.chance(50) ? 0x8000 : 0) | (r.chance(50) ? 0x40 : 0) | uint32_t(r.below(64));
    }
}

static void exec_C05(Script & sc, Outcome & o)
{
    init_arena(sc);
    if (!solo_runs(sc, o, false)) return;
    if (c05_stepped(sc.seed)) {         // some sweeps: the control state after every instruction, short blocks only
        int pid = fork_child();
        if (pid == 0) {
            static Engine e;
            e.dirty = true; e.fp_watch = true; e.singlestep = true;
            engine_setup(e, sc);
            uint64_t left = 1200;
            for (int t = 0; t < sc.nt; ++t) {
                Task & tk = e.tasks[t]; t_cur = &tk; tk.left = ~0ull;
                while (tk.next < tk.calls.size()) {
                    uint64_t st = g_solo.steps[tk.calls[tk.next]];
                    if (st > left) break;
                    left -= st; g_sh->faults[F_STEP]++;
                    run_call(tk);
                }
            }
            ev(hash_bytes(arena(), sc.used));
            g_sh->status = ST_OK;
            _exit(0);
        }
        if (!fork_end(o, pid)) return;
    }
    const bool fresh = !sc.have_slices;
    std::vector<uint8_t> ex; expected_arena(sc, ex);
    for (int att = 0, na = fresh ? attempts() : 1; att < na; ++att) {
    if (fresh) { Rng r((sc.seed ^ 0xC05C05ull) + att * 0x9e3779b97f4a7c15ull); gen_schedule(sc, r, true); }
    int pid = fork_child();
    if (pid == 0) {
        static Engine e;
        e.dirty = true; e.fp_watch = true;
        engine_setup(e, sc);
        age_process(e, sc);
        for (int t = 0; t < sc.nt; ++t) if (!e.tasks[t].calls.empty()) { start_task(e, t, 0); g_sh->faults[F_FPENV]++; }
        do_slices(e, sc);
        compare_arena(sc, ex, "fpenv-leak");
        if (!violated()) g_sh->status = ST_OK;
        _exit(0);
    }
    bool ok = fork_end(o, pid);
    o.trace = script_trace(sc);
    for (int t = 0; t < sc.nt; ++t) o.trace = mix64(o.trace, sc.mxcsr[t]);
    o.nontrivial = o.faults[F_FPENV] > 0 && o.faults[F_PREEMPT] + o.faults[F_NEST] > 0;
    if (!ok) return;
    o.status = ST_OK;
    }
}

extern const Property conc_props[] = {
    { "C01", gen_C01, exec_C01 }, { "C02", gen_C02, exec_C02 }, { "C03", gen_C03, exec_C03 }, { "C04", gen_C04, exec_C04 }, { "C05", gen_C05, exec_C05 },
    { nullptr, nullptr, nullptr }
};

} // namespace sim
