// Deterministic scheduler: real threads parked and released one at a time; one virtual clock; every choice
// comes from one PRNG (exploration) or from a recorded sparse decision list (replay).
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <utility>

namespace sim {

struct SchedConfig {
    uint64_t seed = 1;
    double pSwitch = 0.2;        // probability to switch at a synchronisation point
    uint64_t preemptMean = 0;    // mean number of basic blocks between preemptions, 0: none
    double pSpurious = 0;        // probability that a condition/futex wait wakes spuriously
    double pStall = 0;           // probability that a thread stalls at a synchronisation point
    int64_t maxStall = 0;        // longest stall, ns
    bool starve = false;         // give threads very different weights
    bool fail = false;           // (reserved)
    uint64_t maxSteps = 400000;  // synchronisation points per run
    uint64_t maxBlocks = 60000000; // basic blocks per run
    int64_t maxTime = 40000LL * 1000000000LL;
    bool replay = false;
    std::map<uint64_t, uint32_t> decisions;              // index -> value (non default only)
    std::vector<std::pair<uint64_t, int>> preemptions;   // basic block count -> thread
};

struct Stats {
    uint64_t steps = 0, blocks = 0, switches = 0, preempts = 0, stalls = 0, spurious = 0, threads = 0, timeJumps = 0;
    int64_t stallTime = 0;       // total virtual time threads were stalled
    uint64_t schedHash = 1469598103934665603ULL;
};

// begins the simulation on the calling thread (which becomes thread 0)
void begin(const SchedConfig &cfg);
// ends it: no other simulated thread may be left; afterwards everything passes through
void end();
bool active();
bool onSimThread();
int self();
int64_t now();                     // virtual ns since begin
void sleepUntil(int64_t t);        // virtual
inline void sleepFor(int64_t d) { sleepUntil(now() + d); }
void yield(const char *why);       // a synchronisation point of the harness itself
uint32_t choose(uint32_t n);       // recorded choice, 0 is the default
void blockOn(const void *addr, int64_t deadline = -1);  // until wakeAll(addr)
void wakeAll(const void *addr);
void nameThread(const char *name);
const char *threadName(int id);
int liveThreads();
int liveUnnamed();      // those the simulation did not start itself                 // simulated threads not finished, thread 0 included
void focus(uint64_t blocks);        // a preemption is due within this many basic blocks
void stopPreempting();             // the checks that follow need no more interleaving
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

Stats &stats();
const std::map<uint64_t, uint32_t> &madeDecisions();
const std::vector<std::pair<uint64_t, int>> &madePreemptions();

// called (on any simulated thread) for deadlock / hang; must not return
extern void (*onFatal)(const char *kind, const std::string &detail);
extern uint8_t *coverage; // 65536 bytes, may be null

}
