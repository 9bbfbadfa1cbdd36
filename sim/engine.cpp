#include "engine.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <immintrin.h>
#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

namespace sim {

Engine * g_eng;
__thread Task * t_cur;
static __thread volatile char t_sel;      // syscall user dispatch selector: 0 allow, 1 trap
static __thread int t_hook;               // inside a hook
static __thread sem_t * t_sem;            // this thread's own wake-up

uint32_t get_mxcsr() { uint32_t v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v; }
static void set_x87cw(uint16_t v) { __asm__ volatile("fldcw %0" : : "m"(v)); }
void set_mxcsr(uint32_t v) { __asm__ volatile("ldmxcsr %0" : : "m"(v)); }
static uint16_t x87cw() { uint16_t v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v; }
static uint16_t x87tag() { struct { uint32_t r[7]; } e; __asm__ volatile("fnstenv %0\n\tfldenv %0" : "+m"(e)); return uint16_t(e.r[2]); }
static bool dirflag() { uint64_t f; __asm__ volatile("pushfq\n\tpopq %0" : "=r"(f)); return f & 0x400; }

Engine::Engine() : sc(nullptr), policy_reads(false), policy_writes(false), sud(false), rt_watch(false), fp_watch(false), dirty(false), track(false), singlestep(false),
    step_limit(4000000), same_again(0), observe(nullptr), before(nullptr), after(nullptr)
{
    sem_init(&main_sem, 0, 0);
}

void engine_setup(Engine & e, const Script & sc)
{
    g_eng = &e;
    e.sc = &sc;
    for (int i = 0; i < MAXT; ++i) {
        Task & t = e.tasks[i];
        t.id = i; t.calls.clear(); t.next = 0; t.cur = -1; t.incall = t.done = t.dead = t.yielded = t.started = false;
        t.steps = t.total = t.left = 0; t.limit = e.step_limit; t.mxcsr = sc.mxcsr[i]; t.x87 = 0; t.cmd = 0; t.nest = nullptr;
        t.go = nullptr;
        for (size_t k = 0; k < sc.calls.size(); ++k) if (sc.calls[k].task == i) t.calls.push_back(int(k));
    }
}

static void finish_now() { _exit(0); }

static void __attribute__((noinline)) dirty_stack(uint64_t seed)
{
    volatile uint64_t junk[512];
    for (int i = 0; i < 512; ++i) junk[i] = seed * (2 * i + 1) + 0x4049000040490000ull;
    __asm__ volatile("" : : "r"(junk) : "memory");
}
static bool has_avx() { static int v = -1; if (v < 0) v = __builtin_cpu_supports("avx") ? 1 : 0; return v; }
void dirty_machine(uint64_t seed)
{
    dirty_stack(seed);
    alignas(32) uint64_t g[4];
    for (int i = 0; i < 4; ++i) g[i] = (seed * (i + 3)) ^ 0x40490fdb40490fdbull;
    if (has_avx())
        __asm__ volatile("vmovups %0,%%ymm0\n vmovups %0,%%ymm1\n vmovups %0,%%ymm2\n vmovups %0,%%ymm3\n vmovups %0,%%ymm4\n vmovups %0,%%ymm5\n vmovups %0,%%ymm6\n vmovups %0,%%ymm7\n"
            "vmovups %0,%%ymm8\n vmovups %0,%%ymm9\n vmovups %0,%%ymm10\n vmovups %0,%%ymm11\n vmovups %0,%%ymm12\n vmovups %0,%%ymm13\n vmovups %0,%%ymm14\n vmovups %0,%%ymm15"
            : : "m"(g) : "xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15");
    else
        __asm__ volatile("movups %0,%%xmm0\n movups %0,%%xmm1\n movups %0,%%xmm2\n movups %0,%%xmm3\n movups %0,%%xmm4\n movups %0,%%xmm5\n movups %0,%%xmm6\n movups %0,%%xmm7"
            : : "m"(g) : "xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7");
}

static Task g_aged;                // carries the calls that age the process
static sigjmp_buf g_burst_out;     // a burst that would have to wait for a suspended task is given up (waiting as such is C04's business)
static bool g_in_burst;

// ---------------------------------------------------------------- parking
static void __attribute__((noinline)) burst_here(Engine & e, uint32_t n);
static void park(Task & t)      // the task gives control back and waits to be scheduled again
{
    char sel = t_sel; t_sel = 0;
    uint32_t mx = get_mxcsr();
    ev((uint64_t(t.id) << 56) ^ (uint64_t(t.cur) << 40) ^ t.steps);
    sem_post(&g_eng->main_sem);
    for (;;) {
        sem_wait(t_sem);
        if (t.cmd == 2) { burst_here(*g_eng, t.burst); t.cmd = 0; sem_post(&g_eng->main_sem); continue; }
        if (t.cmd == 1) {
            Task & u = *t.nest;
            t_cur = &u;
            u.left = ~0ull;
            run_call(u);
            t_cur = &t;
            t.cmd = 0;
            sem_post(&g_eng->main_sem);
            continue;
        }
        break;
    }
    set_mxcsr(mx);
    t_sel = sel;
}

void yield_blocked()
{
    Task * t = t_cur;
    if (!t || !t->incall) return;
    if (t == &g_aged) siglongjmp(g_burst_out, 1);
    t->yielded = true;
    g_sh->faults[F_BLOCKED]++;
    park(*t);
}

static void where(const Task & t, char * b, size_t n)     // only called on the way to a report
{
    t_hook = 1; t_sel = 0;
    const Call & c = g_eng->sc->calls[t.cur];
    snprintf(b, n, "task %d call #%d %s n=%u step %llu", t.id, t.cur, op_id(c.op).c_str(), c.n, (unsigned long long)t.steps);
}

static void bad_access(Task & t, uintptr_t a, size_t n, bool write)
{
    char w[160]; where(t, w, sizeof w);
    violation(write ? "write-outside" : "read-outside", "%s: %s of %zu bytes at arena+%llu, outside the buffers of the call", w, write ? "write" : "read", n,
        (unsigned long long)(a - ARENA));
    finish_now();
}

static inline __attribute__((always_inline)) void check_policy(Task & t, uintptr_t a, size_t n, bool write)
{
    const Access & A = t.acc;
    const uint64_t off = a - ARENA;
    if (write) { for (int i = 0; i < A.nw; ++i) if (off >= A.wr[i].off && off + n <= uint64_t(A.wr[i].off) + A.wr[i].len) return; }
    else for (int i = 0; i < A.nr; ++i) if (off >= A.rd[i].off && off + n <= uint64_t(A.rd[i].off) + A.rd[i].len) return;
    bad_access(t, a, n, write);
}

static void __attribute__((noinline)) fp_check(Task & t)
{
    uint32_t m = get_mxcsr();
    if ((m ^ t.mxcsr) & 0xffc0) {
        char w[160]; where(t, w, sizeof w);
        violation("fpenv-changed", "%s: control bits of the caller's floating point state changed during the call (%04x -> %04x)", w, t.mxcsr & 0xffc0, m & 0xffc0);
        finish_now();
    }
    if (t.x87 && x87cw() != t.x87) {
        char w[160]; where(t, w, sizeof w);
        violation("fpenv-changed", "%s: x87 control word of the caller changed during the call (%04x -> %04x)", w, t.x87, x87cw());
        finish_now();
    }
    g_sh->checks++;
}

static void __attribute__((noinline)) over_limit(Task & t)
{
    if (&t == &g_aged && g_in_burst && !g_eng->rt_watch) siglongjmp(g_burst_out, 1);
    char w[160]; where(t, w, sizeof w);
    violation("no-progress", "%s: call did not finish within its step bound %llu", w, (unsigned long long)t.limit);
    finish_now();
}

extern "C" { extern char __data_start, _end, __executable_start, etext; }
// Memory that another call could see: anything but the arena and this thread's stack. The scheduler aims at such accesses.
static void __attribute__((noinline)) note_hot(Task & t, uintptr_t a, int kind)
{
    uintptr_t sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    if (a - ARENA < ARENA_SIZE || a - (sp - (1u << 16)) < (1u << 20)) return;
    bool data = a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&_end);
    if (kind == 1 && !data) return;
    if (g_sh->nhot < 64) g_sh->hot[g_sh->nhot++] = t.total;
    else { uint64_t h = mix64(t.total, g_sh->nhot++); if (h % 8 == 0) g_sh->hot[h / 8 % 64] = t.total; }
}

static inline __attribute__((always_inline)) void point(uintptr_t a, size_t n, int kind)   // kind: 0 code, 1 read, 2 write
{
    Task * t = t_cur;
    if (!t || !t->incall || t_hook) return;
    Engine & e = *g_eng;
    if (kind && a - ARENA < ARENA_SIZE) {
        if (kind == 2 ? e.policy_writes : e.policy_reads) check_policy(*t, a, n, kind == 2);
    }
    ++t->steps; ++t->total;
    if (e.track && kind) note_hot(*t, a, kind);
    if (t->steps > t->limit) over_limit(*t);
    if (e.fp_watch) fp_check(*t);
    if (e.observe) {
        t_hook = 1; e.observe(*t); t_hook = 0;
        if (kind == 2 && a - ARENA < ARENA_SIZE) { uint32_t o = uint32_t(a - ARENA); if (o < t->wlo) t->wlo = o; if (o + n > t->whi) t->whi = uint32_t(o + n); }
    }
    if (--t->left == 0) park(*t);
}

// ---------------------------------------------------------------- running calls
void run_call(Task & t)
{
    Engine & e = *g_eng;
    const Call & c = e.sc->calls[t.calls[t.next]];
    t.cur = t.calls[t.next];
    t.acc = access_of(c);
    if (e.sc->modes) {               // this thread has changed its mode since the call before
        uint64_t h = mix64(e.sc->modes, t.cur);
        t.mxcsr = h % 2 ? e.sc->mxcsr[t.id] : 0x1f80 | uint32_t(h / 2 % 4) << 13 | (h & 64 ? 0x8000 : 0) | (h & 128 ? 0x40 : 0);
        g_sh->faults[F_FPENV]++;
    }
    t.steps = 0; t.wlo = ~0u; t.whi = 0; t.limit = e.step_limit + uint64_t(c.n) * 2000;
    Args a = make_args(c);
    if (e.before) e.before(t, c);
    const uint16_t cw0 = x87cw();
    uint16_t cw = cw0;
    if (e.fp_watch) {                // the caller's own x87 rounding and precision
        uint64_t h = mix64(e.sc->garbage, 0x87 + t.id);
        if (h % 2) { static const uint16_t pc[] = { 0x000, 0x200, 0x300 }; cw = uint16_t(0x7f) | pc[h / 2 % 3] | uint16_t(h / 8 % 4) << 10; set_x87cw(cw); g_sh->faults[F_FPENV]++; }
        t.x87 = cw;
    }
    if (e.dirty) dirty_machine(e.sc->garbage + t.cur);
    set_mxcsr(t.mxcsr);
    t.incall = true;
    if (e.sud) t_sel = 1;
    if (e.singlestep) {
        t_hook = 1;          // the hooks return at once
        __asm__ volatile("pushfq\n\torq $0x100, (%%rsp)\n\tpopfq" : : : "cc", "memory");
        c.op->fn(a);
        __asm__ volatile("pushfq\n\tandq $~0x100, (%%rsp)\n\tpopfq" : : : "cc", "memory");
        t_hook = 0;
    } else
        c.op->fn(a);
    t_sel = 0;
    t.incall = false;
    uint32_t m = get_mxcsr();
    bool df = dirflag();
    __asm__ volatile("cld");
    set_mxcsr(0x1f80);
    t.ret = a.ret;
    if (e.fp_watch) {
        uint16_t cw2 = x87cw(), tag = x87tag();
        set_x87cw(cw0);
        if (((m ^ t.mxcsr) & 0xffc0) || cw2 != cw || tag != 0xffff || df) {
            char w[160]; where(t, w, sizeof w);
            violation("fpenv-return", "%s: caller's floating point state not preserved: mxcsr control %04x -> %04x, x87 control %04x -> %04x, x87 tags %04x, direction flag %d",
                w, t.mxcsr & 0xffc0, m & 0xffc0, cw, cw2, tag, df);
        }
        if (violated()) finish_now();
        g_sh->checks++;
    }
    uint64_t rb; memcpy(&rb, &a.ret, 8); if (a.ret != a.ret) rb = 1;
    ev((uint64_t(t.cur) << 32) ^ t.steps ^ 0x55); ev(rb);
    if (e.observe) e.observe(t);
    if (t.cur < MAXCALLS) g_sh->call_steps[t.cur] = t.steps;
    g_sh->steps += t.steps;
    if (e.after) e.after(t, c);
    if (violated()) finish_now();
    t.next++;
    t.cur = -1;
}

static void sud_on()
{
    if (prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, 0L, 0L, &t_sel) != 0) { g_sh->status = ST_ERROR; snprintf(g_sh->msg, sizeof g_sh->msg, "syscall user dispatch unavailable"); finish_now(); }
}

// The process (or the thread) has already made many calls of the first operation: counters, caches and lazily built state are no longer fresh.
void age(Engine & e, const Script & sc, uint32_t count)
{
    static const uint32_t BASE = STREAM_SIZE;
    if (!count || sc.calls.empty() || sc.used > BASE) return;
    Call c = sc.calls[0];
    const unsigned z = c.op->f64 ? 8 : 4;
    if (!c.op->fixed_n && c.n > 32) c.n = c.op->gran > 32 ? c.op->gran : 32 / c.op->gran * c.op->gran;
    c.o0 = BASE + c.o0 % 64; c.o1 = BASE + (1u << 18) + c.o1 % 64;
    for (int i = 0; i < 4; ++i) c.in[i] = BASE + (2u << 18) + (uint32_t(i) << 17) + c.in[i] % 64;
    Rng r(sc.garbage ^ 0xA6ED);
    int cls = int(r.below(3)) == 0 ? D_MOSTLY : D_POS;
    for (int i = 0; i < 4; ++i) fill_data(arena() + c.in[i], c.n, c.op->f64, cls, r.next());
    Task & w = g_aged;
    w.id = 0; w.cur = 0; w.acc = access_of(c); w.total = 0; w.left = ~0ull; w.limit = uint64_t(c.n) * 2000 + 4000; w.mxcsr = e.fp_watch ? 0x1f80 | uint32_t(r.below(4)) << 13 | (r.chance(50) ? 0x8000 : 0) | (r.chance(50) ? 0x40 : 0) : 0x1f80;
    void (*obs)(Task &) = e.observe; e.observe = nullptr;
    fill_data(arena() + c.o0, c.n, c.op->f64, D_POS, r.next()); fill_data(arena() + c.o1, c.n, c.op->f64, D_POS, r.next());
    std::vector<uint8_t> pre, first;
    auto save = [&](std::vector<uint8_t> & v) { v.clear(); for (int i = 0; i < w.acc.nw; ++i) v.insert(v.end(), arena() + w.acc.wr[i].off, arena() + w.acc.wr[i].off + w.acc.wr[i].len); };
    save(pre); first.reserve(pre.size());
    std::vector<uint8_t> now; now.reserve(pre.size());
    double ret = 0;
    Task * was = t_cur;
    t_cur = &w;
    for (uint32_t k = 0; k < count; ++k) {
        size_t p = 0;
        for (int i = 0; i < w.acc.nw; p += w.acc.wr[i].len, ++i) memcpy(arena() + w.acc.wr[i].off, &pre[p], w.acc.wr[i].len);
        Args a = make_args(c);
        w.steps = 0;
        set_mxcsr(w.mxcsr);
        w.incall = true;
        if (e.sud) t_sel = 1;
        c.op->fn(a);
        t_sel = 0;
        w.incall = false;
        uint32_t m = get_mxcsr();
        set_mxcsr(0x1f80);
        g_sh->steps += w.steps;
        if (e.fp_watch && ((m ^ w.mxcsr) & 0xffc0)) violation("fpenv-return", "call %u of %s n=%u in the process: caller's floating point state not preserved: mxcsr control %04x -> %04x", k, op_id(c.op).c_str(), c.n, w.mxcsr & 0xffc0, m & 0xffc0);
        if (e.same_again) {
            save(now); if (k == 0) { first = now; ret = a.ret; }
            else if (now != first)
                for (size_t b = 0; b + z <= pre.size(); b += z) {
                    double x = ld(&now[b], c.op->f64, 0), y = ld(&first[b], c.op->f64, 0);
                    if (same_value(&now[b], &first[b], c.op->f64) || (e.same_again > 1 && std::fabs(x - y) <= (c.op->f64 ? 1e-10 : 1e-4) * std::max(1., std::fabs(y)))) continue;
                    violation("history", "call %u of %s n=%u in the process: output element %zu is %.17g, the first call gave %.17g for the same operands", k, op_id(c.op).c_str(), c.n, b / z, x, y);
                    break;
                }
            if (std::fabs(a.ret - ret) > 1e-4 * std::max(1., std::fabs(ret))) violation("history", "call %u of %s n=%u in the process: returned %.17g, the first call %.17g for the same operands", k, op_id(c.op).c_str(), c.n, a.ret, ret);
        }
        if (violated()) finish_now();
    }
    t_cur = was;
    e.observe = obs;
    g_sh->checks += e.same_again ? count : 0;
    ev(count);
}

static void __attribute__((noinline)) burst_here(Engine & e, uint32_t n)
{
    void (*obs)(Task &) = e.observe;
    Task * volatile was = t_cur; volatile char sel = t_sel; volatile uint32_t mx = get_mxcsr();
    g_in_burst = true;
    t_cur = nullptr;                 // library templates instantiated in the instrumented units call the hooks as well
    if (sigsetjmp(g_burst_out, 0) == 0) age(e, *e.sc, n);
    else { g_aged.incall = false; g_sh->faults[F_BLOCKED]++; }
    g_in_burst = false;
    e.observe = obs; t_cur = was; t_sel = sel; set_mxcsr(mx);
}

void burst(Engine & e, int host, uint32_t n)
{
    ev(0x5000 + host); ev(n);
    g_sh->faults[F_BURST]++;
    if (host >= MAXT) { if (e.sud) sud_on(); burst_here(e, n); return; }
    Task & t = e.tasks[host];
    if (t.done || t.dead || !t.incall) return;
    t.cmd = 2; t.burst = n;
    sem_post(t.go);
    sem_wait(&e.main_sem);
}

void age_process(Engine & e, const Script & sc)
{
    if (!sc.warm || sc.warm % 2) return;
    if (e.sud) sud_on();
    g_sh->faults[F_AGED]++;
    age(e, sc, sc.warm);
}

static void * thread_main(void * p)
{
    Task & t = *static_cast<Task *>(p);
    if (g_eng->sud) sud_on();
    if (t.id == 0 && t.next == 0 && g_eng->sc->warm % 2) { g_sh->faults[F_AGED]++; age(*g_eng, *g_eng->sc, g_eng->sc->warm); }
    t_cur = &t;
    t_sem = t.go;
    sem_post(&g_eng->main_sem);
    sem_wait(t_sem);                 // wait to be scheduled the first time
    while (t.next < t.calls.size()) run_call(t);
    t.done = true;
    t_cur = nullptr;
    sem_post(&g_eng->main_sem);
    for (;;) sem_wait(t_sem);        // threads of finished tasks stay parked until the process ends
    return nullptr;
}

bool start_task(Engine & e, int id, size_t first)
{
    Task & t = e.tasks[id];
    t.next = first; t.started = true; t.done = t.dead = t.incall = t.yielded = false;
    t.go = new sem_t; sem_init(t.go, 0, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 << 10);
    if (pthread_create(&t.th, &at, thread_main, &t) != 0) { g_sh->status = ST_ERROR; snprintf(g_sh->msg, sizeof g_sh->msg, "pthread_create failed"); finish_now(); }
    sem_wait(&e.main_sem);
    return true;
}

void run_slice(Engine & e, int id, uint64_t k)
{
    Task & t = e.tasks[id];
    if (t.done || t.dead || !t.started) return;
    t.left = k; t.yielded = false;
    ev(0x1000 + id); ev(k);
    g_sh->switches++;
    sem_post(t.go);
    sem_wait(&e.main_sem);
}

void nest_slice(Engine & e, int host, int guest)
{
    Task & t = e.tasks[host]; Task & u = e.tasks[guest];
    if (t.done || t.dead || !t.incall || u.incall || u.done || u.dead || u.next >= u.calls.size()) return;
    t.cmd = 1; t.nest = &u;
    ev(0x2000 + host * 16 + guest);
    g_sh->faults[F_NEST]++;
    sem_post(t.go);
    sem_wait(&e.main_sem);
    if (u.next >= u.calls.size()) u.done = true;
}

// ---------------------------------------------------------------- crashes inside calls
static void on_crash(int sig, siginfo_t * si, void *)
{
    t_sel = 0;
    Task * t = t_cur;
    if (!t || !t->incall) {
        g_sh->status = ST_ERROR;
        snprintf(g_sh->msg, sizeof g_sh->msg, "simulator crashed: signal %d at %p", sig, si->si_addr);
        _exit(0);
    }
    char w[160]; where(*t, w, sizeof w);
    uintptr_t a = reinterpret_cast<uintptr_t>(si->si_addr);
    if (sig == SIGALRM) { g_sh->status = ST_ERROR; snprintf(g_sh->msg, sizeof g_sh->msg, "%s: wall-clock watchdog", w); _exit(0); }
    if (a - ARENA < ARENA_SIZE) violation("fault", "%s: memory fault (signal %d) at arena+%llu", w, sig, (unsigned long long)(a - ARENA));
    else violation("fault", "%s: signal %d", w, sig);
    _exit(0);
}

static void on_sigsys(int, siginfo_t * si, void * c)
{
    t_sel = 0;
    Task * t = t_cur;
    if (t && t->incall && g_eng->rt_watch) {
        char w[160]; where(*t, w, sizeof w);
        violation("syscall", "%s: entered the operating system (system call %d)", w, si->si_syscall);
        _exit(0);
    }
    ucontext_t * u = static_cast<ucontext_t *>(c);
    u->uc_mcontext.gregs[REG_RAX] = si->si_syscall;
    u->uc_mcontext.gregs[REG_RIP] -= 2;
}

static void on_trap(int, siginfo_t *, void * c)
{
    Task * t = t_cur;
    if (!t || !t->incall) return;
    ucontext_t * u = static_cast<ucontext_t *>(c);
    g_sh->checks++;
    uintptr_t ip = uintptr_t(u->uc_mcontext.gregs[REG_RIP]);
    if (ip < reinterpret_cast<uintptr_t>(&__executable_start) || ip >= reinterpret_cast<uintptr_t>(&etext)) return;    // libm and libc are atomic
    uint32_t m = u->uc_mcontext.fpregs->mxcsr;
    const uint16_t cw = u->uc_mcontext.fpregs->cwd;
    if (((m ^ t->mxcsr) & 0xffc0) || (t->x87 && cw != t->x87)) {
        char w[160]; where(*t, w, sizeof w);
        if (t->x87 && cw != t->x87) violation("fpenv-changed", "%s: x87 control word of the caller changed during the call (%04x -> %04x, between two instructions)", w, t->x87, cw);
        else violation("fpenv-changed", "%s: control bits of the caller's floating point state changed during the call (%04x -> %04x, between two instructions)", w, t->mxcsr & 0xffc0, m & 0xffc0);
        finish_now();
    }
}

void install_handlers()
{
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM }) sigaction(s, &sa, nullptr);
    sa.sa_sigaction = on_trap;
    sigaction(SIGTRAP, &sa, nullptr);
    sa.sa_sigaction = on_sigsys;
    sigaction(SIGSYS, &sa, nullptr);
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 60;
    setitimer(ITIMER_REAL, &tv, nullptr);
}

static void rt_event(const char * what)
{
    Task * t = t_cur;
    if (!t || !t->incall || t_hook || !g_eng->rt_watch) return;
    t_sel = 0;
    char w[160]; where(*t, w, sizeof w);
    violation(what, "%s: %s inside a processing call", w, what);
    finish_now();
}

} // namespace sim

using sim::point;

// ---------------------------------------------------------------- compiler instrumentation hooks (the seam)
#define RW(N) \
    void __tsan_read##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 1); } \
    void __tsan_write##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 2); } \
    void __tsan_unaligned_read##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 1); } \
    void __tsan_unaligned_write##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 2); } \
    void __tsan_volatile_read##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 1); } \
    void __tsan_volatile_write##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 2); } \
    void __tsan_unaligned_volatile_read##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 1); } \
    void __tsan_unaligned_volatile_write##N(void * p) { point(reinterpret_cast<uintptr_t>(p), N, 2); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { point(reinterpret_cast<uintptr_t>(p), n, 1); }
void __tsan_write_range(void * p, unsigned long n) { point(reinterpret_cast<uintptr_t>(p), n, 2); }
void __tsan_vptr_update(void ** p, void *) { point(reinterpret_cast<uintptr_t>(p), 8, 2); }
void __tsan_vptr_read(void ** p) { point(reinterpret_cast<uintptr_t>(p), 8, 1); }
void __sanitizer_cov_trace_pc() { point(0, 0, 0); }
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T * p, int) { point(uintptr_t(p), sizeof(T), 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(volatile T * p, T v, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T * p, T * c, T v, int, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T * p, T * c, T v, int, int) { point(uintptr_t(p), sizeof(T), 2); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T * p, T c, T v, int, int) { point(uintptr_t(p), sizeof(T), 2); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(0, 0, 0); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) { point(0, 0, 0); }

// ---------------------------------------------------------------- memory functions called by the library (linked with --wrap)
void * __real_memcpy(void *, const void *, size_t);
void * __real_memmove(void *, const void *, size_t);
void * __real_memset(void *, int, size_t);
static void chunked(void * d, const void * s, size_t n)
{
    point(uintptr_t(s), n, 1); point(uintptr_t(d), n, 2);
}
void * __wrap_memcpy(void * d, const void * s, size_t n) { chunked(d, s, n); return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { chunked(d, s, n); return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { point(uintptr_t(d), n, 2); return __real_memset(d, c, n); }

// ---------------------------------------------------------------- allocation and blocking
void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); void * __libc_memalign(size_t, size_t);
void * malloc(size_t n) noexcept { sim::rt_event("allocation"); return __libc_malloc(n); }
void free(void * p) noexcept { sim::rt_event("allocation"); __libc_free(p); }
void * calloc(size_t a, size_t b) noexcept { sim::rt_event("allocation"); return __libc_calloc(a, b); }
void * realloc(void * p, size_t n) noexcept { sim::rt_event("allocation"); return __libc_realloc(p, n); }
void * memalign(size_t a, size_t n) noexcept { sim::rt_event("allocation"); return __libc_memalign(a, n); }
void * aligned_alloc(size_t a, size_t n) noexcept { sim::rt_event("allocation"); return __libc_memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n) noexcept { sim::rt_event("allocation"); void * q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }

// function-local statics: the guard protocol, blocking on a peer that is still initialising
int __cxa_guard_acquire(uint64_t * g)
{
    volatile uint8_t * b = reinterpret_cast<volatile uint8_t *>(g);
    point(uintptr_t(g), 1, 1);
    if (b[0]) return 0;
    if (sim::t_cur && sim::t_cur->incall) sim::rt_event("lock");
    while (b[1]) { sim::yield_blocked(); if (b[0]) return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t * g) { volatile uint8_t * b = reinterpret_cast<volatile uint8_t *>(g); b[0] = 1; b[1] = 0; point(uintptr_t(g), 1, 2); }
void __cxa_guard_abort(uint64_t * g) { volatile uint8_t * b = reinterpret_cast<volatile uint8_t *>(g); b[1] = 0; }

// Blocking primitives: never allowed inside a call (C04); elsewhere their blocking is modelled as yielding to the scheduler.
#define LOCKFN(NAME, TRY, TYPE) \
int NAME(TYPE * m) noexcept \
{ \
    typedef int (*fn)(TYPE *); \
    static fn real, rtry; \
    if (!real) { real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, #NAME)); rtry = reinterpret_cast<fn>(dlsym(RTLD_NEXT, #TRY)); } \
    if (!sim::t_cur || !sim::t_cur->incall) return real(m); \
    sim::rt_event("lock"); \
    point(uintptr_t(m), 8, 2); \
    int r; \
    while ((r = rtry(m)) == EBUSY) sim::yield_blocked(); \
    return r; \
}
LOCKFN(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
LOCKFN(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCKFN(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
#define TRYFN(NAME, TYPE) \
int NAME(TYPE * m) noexcept \
{ \
    typedef int (*fn)(TYPE *); \
    static fn real; \
    if (!real) real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, #NAME)); \
    if (sim::t_cur && sim::t_cur->incall) { sim::rt_event("lock"); point(uintptr_t(m), 8, 2); } \
    return real(m); \
}
TRYFN(pthread_mutex_trylock, pthread_mutex_t)
TRYFN(pthread_rwlock_tryrdlock, pthread_rwlock_t)
TRYFN(pthread_rwlock_trywrlock, pthread_rwlock_t)
int pthread_spin_lock(pthread_spinlock_t * l) noexcept
{
    sim::rt_event("lock");
    point(uintptr_t(l), 4, 2);
    while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) sim::yield_blocked();
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t * l) noexcept { __atomic_store_n(l, 0, __ATOMIC_RELEASE); point(uintptr_t(l), 4, 2); return 0; }
int pthread_once(pthread_once_t * o, void (*f)()) 
{
    volatile int * s = reinterpret_cast<volatile int *>(o);
    point(uintptr_t(s), 4, 1);
    if (*s == 2) return 0;
    sim::rt_event("lock");
    while (*s == 1) { sim::yield_blocked(); if (*s == 2) return 0; }
    *s = 1; f(); *s = 2;
    return 0;
}
} // extern "C"

void * operator new(size_t n) { sim::rt_event("allocation"); void * p = __libc_malloc(n ? n : 1); if (!p) abort(); return p; }
void * operator new[](size_t n) { sim::rt_event("allocation"); void * p = __libc_malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void * p) noexcept { sim::rt_event("allocation"); __libc_free(p); }
void operator delete[](void * p) noexcept { sim::rt_event("allocation"); __libc_free(p); }
void operator delete(void * p, size_t) noexcept { sim::rt_event("allocation"); __libc_free(p); }
void operator delete[](void * p, size_t) noexcept { sim::rt_event("allocation"); __libc_free(p); }
