// simhost: run seeded simulations, replay a script, minimise a failing script.
#include "props.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sched.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>

namespace sim {
std::string g_cfg;
extern std::vector<const Op *> & raw_ops();
extern const Property conc_props[];
extern const Property stream_props[];

const Property * find_property(const std::string & id)
{
    for (const Property * p = conc_props; p->id; ++p) if (id == p->id) return p;
    for (const Property * p = stream_props; p->id; ++p) if (id == p->id) return p;
    return nullptr;
}

static void reset(Outcome & o) { o.status = ST_NONE; o.cls.clear(); o.msg.clear(); o.digest = o.trace = o.steps = o.samples = o.checks = o.switches = o.runs = 0; memset(o.faults, 0, sizeof o.faults); o.nontrivial = false; }

static void build_script(const Property * p, uint64_t seed, Script & sc)
{
    sc = Script(); sc.prop = p->id; sc.cfg = g_cfg; sc.seed = seed;
    Rng r(seed ^ hash_bytes(p->id, 3));
    p->gen(sc, r);
    Rng a(mix64(seed, 0xA6E));           // one run in ten: not in a fresh process
    if (a.chance(10)) { static const uint32_t top[] = { 70, 300, 300, 1100, 1100, 4200, 4200, 17000 }; uint32_t m = a.chance(2) ? 67000 : top[a.below(8)]; sc.warm = m / 2 + uint32_t(a.below(m / 2)); }
    if (sc.prop >= "C06" && a.chance(15)) sc.hop = 1 + uint32_t(a.below(1000));
    if ((sc.prop == "C01" || sc.prop == "C05" || sc.prop == "C09") && a.chance(25)) sc.modes = 1 + uint32_t(a.below(1000));
}

static bool fails_same(const Property * p, Script sc, const std::string & cls)
{
    Outcome o; reset(o);
    p->exec(sc, o);
    return o.status == ST_VIOLATION && o.cls == cls;
}

static void minimise(const Property * p, Script & sc, const std::string & cls, double budget)
{
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto spent = [&] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > budget; };
    auto attempt = [&](const Script & c) { if (spent()) return false; if (!fails_same(p, c, cls)) return false; sc = c; return true; };
    for (bool changed = true; changed && !spent(); ) {
        changed = false;
        for (size_t chunk = std::max<size_t>(1, sc.calls.size() / 2); chunk; chunk /= 2)
            for (size_t i = sc.calls.size(); i-- > 0; ) {
                if (sc.calls.size() <= 1) break;
                Script c = sc; size_t e = std::min(c.calls.size(), i + 1), b = e >= chunk ? e - chunk : 0;
                if (e - b >= c.calls.size()) continue;
                c.calls.erase(c.calls.begin() + b, c.calls.begin() + e);
                if (attempt(c)) { changed = true; i = std::min(i, sc.calls.size()); }
            }
        for (size_t chunk = std::max<size_t>(1, sc.slices.size() / 2); chunk; chunk /= 2)
            for (size_t i = sc.slices.size(); i > 0; ) {
                size_t e = i, b = e >= chunk ? e - chunk : 0; i = b;
                if (e > sc.slices.size()) continue;
                Script c = sc; c.slices.erase(c.slices.begin() + b, c.slices.begin() + e);
                if (attempt(c)) changed = true;
            }
        for (size_t i = 0; i < sc.calls.size(); ++i) {
            const Op * op = sc.calls[i].op;
            while (!op->fixed_n && sc.calls[i].n > op->gran) {
                Script c = sc; uint32_t k = c.calls[i].n / op->gran; c.calls[i].n = (k / 2) * op->gran;
                if (attempt(c)) { changed = true; continue; }
                c = sc; c.calls[i].n = (k - 1) * op->gran;
                if (attempt(c)) { changed = true; continue; }
                break;
            }
        }
        if (sc.warm) { Script c = sc; c.warm = 0; if (attempt(c)) changed = true; else { c = sc; c.warm /= 2; if (attempt(c)) changed = true; else { c = sc; c.warm -= c.warm > 2 ? 2 : 1; if (attempt(c)) changed = true; } } }
        if (sc.modes) { Script c = sc; c.modes = 0; if (attempt(c)) changed = true; }
        if (sc.hop) { Script c = sc; c.hop = 0; if (attempt(c)) changed = true; }
        for (int t = 0; t < sc.nt; ++t) if (sc.mxcsr[t] != 0x1f80) { Script c = sc; c.mxcsr[t] = 0x1f80; if (attempt(c)) changed = true; }
    }
    // fills nobody reads any more
    for (size_t i = sc.fills.size(); i-- > 0; ) { Script c = sc; c.fills.erase(c.fills.begin() + i); attempt(c); }
}

static std::string slurp(const char * f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string & f, const std::string & t) { std::ofstream o(f); o << t; }

static int cmd_run(int argc, char ** argv)
{
    // run PROP CFG BASE FIRST COUNT STRIDE SECONDS OUTPREFIX
    if (argc < 10) return 2;
    const Property * p = find_property(argv[2]);
    if (!p) { fprintf(stderr, "no property %s\n", argv[2]); return 2; }
    g_cfg = argv[3];
    uint64_t base = strtoull(argv[4], 0, 10), first = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10), stride = strtoull(argv[7], 0, 10);
    double secs = atof(argv[8]); std::string pre = argv[9];
    bool per_seed = argc > 10 && !strcmp(argv[10], "--digests");
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto el = [&] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec); };
    Outcome tot; reset(tot);
    uint64_t done = 0, dig = 0, nontriv = 0, calls = 0;
    std::vector<uint64_t> traces;
    std::vector<char> seen(g_ops.size(), 0);
    std::string sample;
    int rc = 0;
    for (uint64_t i = 0; i < count; ++i) {
        if (secs > 0 && el() > secs) break;
        uint64_t seed = base * 1000000000ull + first + i * stride;
        Script sc; build_script(p, seed, sc);
        Outcome o; reset(o);
        p->exec(sc, o);
        ++done; dig = mix64(dig, o.digest);
        if (per_seed) printf("D %llu %016llx %d\n", (unsigned long long)seed, (unsigned long long)o.digest, o.status);
        tot.steps += o.steps; tot.samples += o.samples; tot.checks += o.checks; tot.switches += o.switches; tot.runs += o.runs;
        for (int k = 0; k < F_COUNT; ++k) tot.faults[k] += o.faults[k];
        calls += sc.calls.size();
        for (const Call & c : sc.calls) { auto it = std::find(g_ops.begin(), g_ops.end(), c.op); seen[it - g_ops.begin()] = 1; }
        if (o.nontrivial) { ++nontriv; traces.push_back(o.trace); if (sample.empty()) sample = sc.text(); }
        if (o.status == ST_VIOLATION) {
            spit(pre + ".script", sc.text());
            printf("VIOL %llu %s\nMSG %s\n", (unsigned long long)seed, o.cls.c_str(), o.msg.c_str());
            rc = 1; break;
        }
        if (o.status != ST_OK) { spit(pre + ".script", sc.text()); printf("ERR %llu %s\n", (unsigned long long)seed, o.msg.c_str()); rc = 2; break; }
    }
    FILE * tf = fopen((pre + ".traces").c_str(), "wb");
    if (tf) { fwrite(traces.data(), 8, traces.size(), tf); fclose(tf); }
    spit(pre + ".sample", sample);
    { std::ofstream so(pre + ".seen"); for (size_t k = 0; k < seen.size(); ++k) if (seen[k]) so << op_id(g_ops[k]) << "\n"; }
    printf("STAT runs %llu\nSTAT processes %llu\nSTAT nontrivial %llu\nSTAT calls %llu\nSTAT steps %llu\nSTAT samples %llu\nSTAT checks %llu\nSTAT switches %llu\nSTAT ops %zu\nSTAT wall_ms %llu\n",
        (unsigned long long)done, (unsigned long long)tot.runs, (unsigned long long)nontriv, (unsigned long long)calls, (unsigned long long)tot.steps, (unsigned long long)tot.samples, (unsigned long long)tot.checks, (unsigned long long)tot.switches, g_ops.size(), (unsigned long long)(el() * 1000));
    for (int k = 0; k < F_COUNT; ++k) if (tot.faults[k]) printf("FAULT %s %llu\n", fault_names[k], (unsigned long long)tot.faults[k]);
    printf("DIGEST %016llx\n", (unsigned long long)dig);
    return rc;
}
} // namespace sim

using namespace sim;

int main(int argc, char ** argv)
{
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (const char * c = getenv("SIM_CPU")) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(c), &s); sched_setaffinity(0, sizeof s, &s); }
    if (mmap(arena(), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != arena()) { fprintf(stderr, "arena\n"); return 2; }
    g_sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_ops = raw_ops();
    std::sort(g_ops.begin(), g_ops.end(), [](const Op * a, const Op * b) {
        std::string x = op_id(a), y = op_id(b); uint64_t hx = hash_bytes(x.data(), x.size()), hy = hash_bytes(y.data(), y.size()); return hx != hy ? hx < hy : x < y; });
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    if (cmd == "run") return cmd_run(argc, argv);
    if (cmd == "ops") { for (const Op * o : g_ops) printf("%s\n", op_id(o).c_str()); return 0; }
    if (cmd == "gen" && argc > 4) { g_cfg = argv[3]; Script sc; build_script(find_property(argv[2]), strtoull(argv[4], 0, 10), sc); fputs(sc.text().c_str(), stdout); return 0; }
    if ((cmd == "replay" && argc > 2) || (cmd == "min" && argc > 5)) {
        Script sc; std::string err;
        if (!sc.parse(slurp(argv[2]), err)) { printf("ERR %s\n", err.c_str()); return 2; }
        const Property * p = find_property(sc.prop);
        if (!p) return 2;
        if (cmd == "min") { minimise(p, sc, argv[4], atof(argv[5])); spit(argv[3], sc.text()); return 0; }
        Outcome o; reset(o);
        p->exec(sc, o);
        printf("DIGEST %016llx\n", (unsigned long long)o.digest);
        if (o.status == ST_VIOLATION) { printf("VIOL %llu %s\nMSG %s\n", (unsigned long long)sc.seed, o.cls.c_str(), o.msg.c_str()); return 1; }
        if (o.status != ST_OK) { printf("ERR %s\n", o.msg.c_str()); return 2; }
        printf("OK\n");
        return 0;
    }
    return 2;
}
