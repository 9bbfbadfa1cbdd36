// Deterministic execution of real library calls on real threads that are parked and released one at a time.
#ifndef SIM_ENGINE_HPP
#define SIM_ENGINE_HPP
#include "core.hpp"
#include <pthread.h>
#include <semaphore.h>

namespace sim {

struct Task {
    int id;
    std::vector<int> calls;       // indices into script.calls
    size_t next;                  // next call to run
    int cur;                      // index of the call being executed
    bool incall, done, dead, yielded, started;
    uint64_t steps;               // in the current call
    uint32_t wlo, whi;            // arena bytes written since the outputs were last looked at
    uint64_t total;               // over all calls
    uint64_t left;                // steps until the scheduler takes over
    uint64_t limit;               // per call: exceeding it is a liveness violation
    uint32_t mxcsr; uint16_t x87;
    Access acc;
    sem_t * go;                   // of the thread that currently carries the task
    pthread_t th;
    int cmd;                      // 0 resume, 1 run one call of 'nest' on this thread
    Task * nest;
    uint32_t burst;
    std::vector<uint8_t> pre;     // snapshot of the call's output ranges
    uint64_t finmask;             // observer bookkeeping
    std::vector<uint8_t> finflag;
    double ret;
};

struct Engine {
    const Script * sc;
    Task tasks[MAXT];
    sem_t main_sem;
    // what to watch
    bool policy_reads, policy_writes;
    bool sud;                     // trap system calls
    bool rt_watch;                // report allocation / lock / syscall
    bool fp_watch;                // floating point environment constant during the call
    bool dirty;
    bool track;                   // note accesses to shared mutable memory
    bool singlestep;              // inspect the control state after every instruction
    uint64_t step_limit;
    int same_again;               // calls that age the process: 1 identical calls give identical results, 2 up to rounding
    void (*observe)(Task &);      // at every step of a call
    void (*before)(Task &, const Call &);
    void (*after)(Task &, const Call &);
    Engine();
};
extern Engine * g_eng;
extern __thread Task * t_cur;

void engine_setup(Engine & e, const Script & sc);
void age(Engine & e, const Script & sc, uint32_t count);
void age_process(Engine & e, const Script & sc);      // the history before the run (sc.warm); odd ages happen on the first task's own thread
void burst(Engine & e, int host, uint32_t n);         // n calls of the first operation in the middle of a run, on the main thread or on top of an interrupted call
void run_call(Task & t);                              // on the current thread
bool start_task(Engine & e, int id, size_t first);    // creates the thread, parked
void run_slice(Engine & e, int id, uint64_t k);       // returns when the task stopped, finished or yielded
void nest_slice(Engine & e, int host, int guest);     // guest's next call runs on top of host's interrupted one
void yield_blocked();                                 // called by lock interposers
void install_handlers();                              // crashes inside a call become violations
void dirty_machine(uint64_t seed);                    // stale stack and vector registers
uint32_t get_mxcsr();
void set_mxcsr(uint32_t);

} // namespace sim
#endif
