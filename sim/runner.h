// Search / replay / minimise driver shared by all simulation harnesses.
#ifndef RUNNER_H
#define RUNNER_H 1
#include "simrt.h"
#include <functional>

typedef std::vector<std::string> Plan;      // one line per configuration item, operation, fault or scheduling decision

struct Counter { char name[64]; uint64_t n; };
struct Shared {                             // lives in memory shared between the worker and its forked runs
    sim::Outcome out;
    int finished;
    uint64_t steps, switches, preempts, parks, spins, allocs, ops, simtime_ns;
    uint64_t ihash;                         // interleaving hash of the run
    uint64_t hhash;                         // hash of the recorded history
    uint64_t nontrivial;                    // the run overlapped operations and switched inside one
    uint64_t boots;
    Counter counters[160]; int ncounters;
    uint64_t dec_len; char dec[24 << 20];   // scheduling decisions as text lines
    uint64_t extra_len; char extra[8 << 20];    // recorded history excerpt
};
extern Shared* shared;
void count(const char* name, uint64_t n = 1);
extern uint64_t dec_base;                    // where dump_decisions() starts writing
void dump_decisions();                      // writes sim::trace into shared->dec (installed as on_fail)
void note_history(const std::string& text); // appended to the replay file as comment lines

struct Harness {
    const char* name;
    // Produces the complete plan (configuration, operations, schedule parameters, faults) for one seed.
    void (*generate)(uint64_t seed, const std::string& profile, Plan& plan);
    // Executes a plan in the (forked) current process; reports violations with sim::fail().
    void (*execute)(const Plan& plan);
    // true if the minimiser may drop this line
    bool (*removable)(const std::string& line);
    // optional: simpler variants of a line, tried in turn by the minimiser
    void (*simplify)(const std::string& line, std::vector<std::string>& out);
    int wall_limit_s;                       // CPU seconds one run may take
};
int runner_main(int argc, char** argv, Harness& h);

// plan helpers
std::vector<std::string> split(const std::string& s, char sep = ' ');
bool plan_get(const Plan& p, const std::string& key, std::string& val);
uint64_t plan_u(const Plan& p, const std::string& key, uint64_t dflt);
double plan_d(const Plan& p, const std::string& key, double dflt);
std::string plan_s(const Plan& p, const std::string& key, const std::string& dflt);
void plan_sched(Plan& p, const sim::SchedCfg& c, uint64_t seed);
void apply_sched(const Plan& p);            // sim::init() and, when the plan holds decisions, sim::set_replay()
#endif
