#ifndef SIM_PROPS_HPP
#define SIM_PROPS_HPP
#include "engine.hpp"

namespace sim {

struct Outcome {
    int status;                 // Status
    std::string cls, msg;
    uint64_t digest;            // of everything that happened in the run
    uint64_t trace;             // identity of the interleaving / history (distinctness measure)
    uint64_t steps, samples, checks, switches, runs;
    uint64_t faults[F_COUNT];
    bool nontrivial;
};

struct Property {
    const char * id;
    void (*gen)(Script &, Rng &);        // draws the workload (and the fault plan) from the seed
    void (*exec)(Script &, Outcome &);   // runs it; fills in the schedule when the script has none
};
const Property * find_property(const std::string & id);
extern std::string g_cfg;

// helpers shared by the workloads
template <class F> void run_child(Outcome & o, F f);      // forks one simulated run from the pristine image
void merge(Outcome & o);                                  // adds g_sh to the outcome
bool strat_long(uint64_t seed, size_t pool);
uint32_t long_n(Rng & r, const Op * op);
uint32_t draw_n(Rng & r, const Op * op, uint32_t maxn);
const Op * strat_op(uint64_t seed, const std::vector<const Op *> & pool, Rng & r);
bool overlap_ok(const Call & c);
void init_arena(const Script & sc);
uint32_t draw_mxcsr(Rng & r);
double nudged(Rng & r, double v, bool f64);
void draw_scalars(Rng & r, Call & c, int cls);
void fork_begin();
bool fork_end(Outcome & o, int pid);
int fork_child();

} // namespace sim
#endif
