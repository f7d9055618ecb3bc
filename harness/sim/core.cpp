#include <execinfo.h>
#include "core.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" char __executable_start;

namespace {

long rawSyscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

template <typename F> F next(const char *name, const char *ver = nullptr)
{
    void *p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
    if (!p) p = dlsym(RTLD_NEXT, name);
    if (!p) { const char m[] = "vsim: missing symbol\n"; rawSyscall(SYS_write, 2, (long)m, sizeof m - 1); abort(); }
    return (F)p;
}
#define REAL(name) static decltype(&name) real = next<decltype(&name)>(#name)
#define REALV(name, ver) static decltype(&name) real = next<decltype(&name)>(#name, ver)

enum State { Runnable, Blocked, Sleeping, Polling, Done };

struct Thread {
    int id = 0;
    pthread_t handle{};
    int tid = 0;
    State state = Runnable;
    const void *addr = nullptr;
    int64_t deadline = -1;     // virtual, -1 none
    int64_t stallUntil = 0;
    bool timedOut = false;
    bool woken = false;
    struct pollfd *fds = nullptr;
    nfds_t nfds = 0;
    uint64_t pollEpoch = 0;
    std::atomic<int> baton{0};
    int dtorRound = 0;
    int noPreempt = 0;
    int weight = 1;
    void *(*start)(void *) = nullptr;
    void *arg = nullptr;
    const char *name = "worker";
};

bool g_active = false;
bool g_stopPreempt = false;
std::vector<Thread *> *g_threads;
Thread *g_current = nullptr;
thread_local Thread *t_self __attribute__((tls_model("initial-exec"))) = nullptr;
int64_t g_now = 0;
sim::SchedConfig g_cfg;
sim::Stats g_stats;
std::map<uint64_t, uint32_t> g_made;
std::vector<std::pair<uint64_t, int>> g_madePre;
uint64_t g_decIdx = 0;
uint64_t g_rng = 1;
uint64_t g_nextPre = ~0ULL;
size_t g_replayPre = 0;
uint64_t g_ioEpoch = 1;
int g_exitingTid = 0;
pthread_key_t g_exitKey;
bool g_keyMade = false;
const int64_t EpochNs = 1700000000LL * 1000000000LL;

uint64_t rng()
{
    g_rng += 0x9e3779b97f4a7c15ULL;
    uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
double rnd01() { return double(rng() >> 11) / double(1ULL << 53); }

FILE *g_trace = nullptr;     // VSIM_TRACE: where every scheduling choice goes (to compare executions)
void mix(uint64_t v)
{
    if (g_trace) fprintf(g_trace, "%lu %lu %llx\n", (unsigned long)g_stats.steps, (unsigned long)g_stats.blocks, (unsigned long long)v);
    g_stats.schedHash = (g_stats.schedHash ^ v) * 1099511628211ULL;
    g_stats.schedHash ^= g_stats.schedHash >> 29;
}

void fatal(const char *kind, const std::string &detail)
{
    g_active = false;
    if (sim::onFatal) sim::onFatal(kind, detail);
    _exit(99);
}

std::string describe()
{
    std::string s;
    static const char *names[] = {"runnable", "blocked", "sleeping", "polling", "done"};
    for (auto t : *g_threads) {
        if (t->state == Done) continue;
        char b[128];
        snprintf(b, sizeof b, "%s#%d:%s%s ", t->name, t->id, names[t->state], t->stallUntil > g_now ? "(stalled)" : "");
        s += b;
    }
    return s;
}

// value of a decision with n outcomes; pick is what exploration wants
uint32_t decide(uint32_t n, uint32_t pick)
{
    uint64_t idx = g_decIdx++;
    uint32_t v = pick;
    if (g_cfg.replay) {
        auto it = g_cfg.decisions.find(idx);
        v = it == g_cfg.decisions.end() ? 0 : it->second;
        if (v >= n) v = 0;
    }
    if (v) g_made[idx] = v;
    return v;
}

bool pollReady(Thread *t)
{
    if (t->pollEpoch == g_ioEpoch) return false;
    struct timespec z = {0, 0};
    static auto real = next<int (*)(struct pollfd *, nfds_t, const struct timespec *, const sigset_t *)>("ppoll");
    (void)real;
    long r = rawSyscall(SYS_ppoll, (long)t->fds, (long)t->nfds, (long)&z, 0, 8);
    if (r > 0) return true;
    t->pollEpoch = g_ioEpoch;
    return false;
}

bool eligible(Thread *t)
{
    if (t->state == Done || t->stallUntil > g_now) return false;
    switch (t->state) {
    case Runnable: return true;
    case Sleeping: return t->deadline <= g_now;
    case Blocked: return t->woken || (t->deadline >= 0 && t->deadline <= g_now);
    case Polling: return (t->deadline >= 0 && t->deadline <= g_now) || pollReady(t);
    default: return false;
    }
}

void batonWait(Thread *t)
{
    while (t->baton.load(std::memory_order_acquire) == 0)
        rawSyscall(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0);
    t->baton.store(0, std::memory_order_relaxed);
    if (g_exitingTid) {
        // the thread that handed over while exiting must be gone before anything else happens
        int pid = getpid();
        while (rawSyscall(SYS_tgkill, pid, g_exitingTid, 0) == 0) rawSyscall(SYS_sched_yield);
        g_exitingTid = 0;
    }
}

void batonGive(Thread *t)
{
    t->baton.store(1, std::memory_order_release);
    rawSyscall(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1);
}

// picks who runs next; me is the caller (may be Done/blocked); sets states of the picked one
Thread *pickNext(Thread *me, bool preferMe, uint64_t why)
{
    if (++g_stats.steps > g_cfg.maxSteps) fatal("hang", "more than the allowed number of scheduling steps; " + describe());
    for (;;) {
        Thread *cand[512];
        uint32_t n = 0;
        if (preferMe && eligible(me)) cand[n++] = me;
        for (auto t : *g_threads)
            if (!(n && preferMe && t == me) && n < 512 && eligible(t)) cand[n++] = t;
        if (n) {
            uint32_t v = 0;
            if (n > 1) {
                uint32_t want = 0;
                if (!g_cfg.replay) {
                    bool mine = preferMe && cand[0] == me;
                    if (!mine || rnd01() < g_cfg.pSwitch) {
                        uint64_t sum = 0;
                        for (uint32_t i = mine ? 1 : 0; i < n; i++) sum += cand[i]->weight;
                        uint64_t r = rng() % sum;
                        for (uint32_t i = mine ? 1 : 0; i < n; i++) {
                            if (r < (uint64_t)cand[i]->weight) { want = i; break; }
                            r -= cand[i]->weight;
                        }
                    }
                }
                v = decide(n, want);
            }
            Thread *t = cand[v];
            if (t->state == Blocked || t->state == Sleeping || t->state == Polling) {
                t->timedOut = t->state == Blocked ? !t->woken : true;
                if (t->state == Polling && pollReady(t)) t->timedOut = false;
                t->state = Runnable;
            }
            mix(((uint64_t)t->id << 32) ^ why);
            return t;
        }
        int64_t earliest = INT64_MAX;
        for (auto t : *g_threads) {
            if (t->state == Done) continue;
            if (t->stallUntil > g_now && (t->state == Runnable || t->woken || t->state == Polling)) earliest = std::min(earliest, t->stallUntil);
            if (t->state != Runnable && t->deadline >= 0) earliest = std::min(earliest, std::max(t->deadline, t->stallUntil));
        }
        if (earliest == INT64_MAX) fatal("deadlock", "no thread can ever run: " + describe());
        if (earliest > g_cfg.maxTime) fatal("hang", "virtual time limit reached: " + describe());
        if (earliest <= g_now) earliest = g_now + 1;
        g_now = earliest;
        g_stats.timeJumps++;
    }
}

void runOther(Thread *me, Thread *n)
{
    if (n == me) return;
    g_stats.switches++;
    g_current = n;
    batonGive(n);
    batonWait(me);
    g_current = me;
}

// the calling thread is in state Blocked/Sleeping/Polling
void park(Thread *me, uint64_t why)
{
    Thread *n = pickNext(me, false, why);
    runOther(me, n);
    me->state = Runnable;
    me->woken = false;
}

inline Thread *simSelf()
{
    return g_active ? t_self : nullptr;
}

void syncPoint(uint64_t why)
{
    Thread *me = simSelf();
    if (!me || me->noPreempt) return;
    if (g_cfg.pStall > 0) {
        static const int64_t table[] = {0, 20000, 1000000, 30000000, 200000000, 900000000, 1500000000LL, 4000000000LL, 7000000000LL};
        uint32_t want = 0;
        if (!g_cfg.replay && rnd01() < g_cfg.pStall) want = 1 + rng() % 8;
        while (want && table[want] > g_cfg.maxStall) want--;
        uint32_t v = decide(9, want);
        if (v) {
            me->stallUntil = g_now + table[v];
            g_stats.stalls++;
            g_stats.stallTime += table[v];
        }
    }
    Thread *n = pickNext(me, true, why);
    runOther(me, n);
    me->state = Runnable;
}

bool spurious()
{
    if (g_cfg.pSpurious <= 0) return false;
    uint32_t v = decide(2, !g_cfg.replay && rnd01() < g_cfg.pSpurious ? 1 : 0);
    if (v) g_stats.spurious++;
    return v;
}

int wake(const void *addr, int count)
{
    // which waiters wake is a choice
    int n = 0;
    while (n < count) {
        Thread *w[512];
        uint32_t k = 0;
        for (auto t : *g_threads)
            if (t->state == Blocked && !t->woken && t->addr == addr && k < 512) w[k++] = t;
        if (!k) break;
        uint32_t v = 0;
        if (k > 1 && count != INT_MAX) v = decide(k, g_cfg.replay ? 0 : rng() % k);
        w[v]->woken = true;
        n++;
    }
    return n;
}

// returns true when woken, false on timeout
bool waitOn(const void *addr, int64_t deadline, uint64_t why)
{
    Thread *me = t_self;
    me->addr = addr;
    me->deadline = deadline;
    me->woken = false;
    me->timedOut = false;
    me->state = Blocked;
    if (spurious()) { me->woken = true; }
    park(me, why);
    me->addr = nullptr;
    me->deadline = -1;
    return !me->timedOut;
}

void scheduleNextPreempt()
{
    if (g_cfg.replay) {
        g_nextPre = g_replayPre < g_cfg.preemptions.size() ? g_cfg.preemptions[g_replayPre].first : ~0ULL;
        return;
    }
    if (!g_cfg.preemptMean) { g_nextPre = ~0ULL; return; }
    g_nextPre = g_stats.blocks + 1 + rng() % (2 * g_cfg.preemptMean);
}

void preempt(uint64_t pc)
{
    Thread *me = t_self;
    Thread *cand[512];
    uint32_t n = 0;
    for (auto t : *g_threads)
        if (t != me && n < 512 && eligible(t)) cand[n++] = t;
    Thread *t = nullptr;
    if (g_cfg.replay) {
        int want = g_cfg.preemptions[g_replayPre].second;
        g_replayPre++;
        for (uint32_t i = 0; i < n; i++) if (cand[i]->id == want) t = cand[i];
    } else if (n) {
        t = cand[rng() % n];
    }
    if (t) {
        g_madePre.push_back({g_stats.blocks, t->id});
        g_stats.preempts++;
        if (t->state != Runnable) {
            t->timedOut = t->state == Blocked ? !t->woken : true;
            if (t->state == Polling && pollReady(t)) t->timedOut = false;
            t->state = Runnable;
        }
        mix(((uint64_t)t->id << 48) ^ pc);
    }
    scheduleNextPreempt();
    if (t) {
        if (++g_stats.steps > g_cfg.maxSteps) fatal("hang", "more than the allowed number of scheduling steps; " + describe());
        runOther(me, t);
        me->state = Runnable;
    }
}

void threadDone(Thread *me)
{
    me->state = Done;
    wake(me, INT_MAX);
    t_self = nullptr;
    if (!g_active) return;
    Thread *n = pickNext(me, false, 0xd0e);
    g_exitingTid = me->tid;
    g_current = n;
    batonGive(n);
}

void exitKeyDtor(void *p)
{
    Thread *t = (Thread *)p;
    if (++t->dtorRound < 4) { pthread_setspecific(g_exitKey, t); return; }
    if (t_self) threadDone(t);
}

void *trampoline(void *p)
{
    Thread *t = (Thread *)p;
    t->tid = (int)rawSyscall(SYS_gettid);
    batonWait(t);
    t_self = t;
    pthread_setspecific(g_exitKey, t);
    return t->start(t->arg);
}

__attribute__((constructor(101))) void makeKey()
{
    if (!g_keyMade) { pthread_key_create(&g_exitKey, exitKeyDtor); g_keyMade = true; }
}

int64_t absToVirtual(const struct timespec *ts)
{
    int64_t v = ts->tv_sec * 1000000000LL + ts->tv_nsec - EpochNs;
    return v < 0 ? 0 : v;
}

void lockSim(pthread_mutex_t *m)
{
    static auto realTry = next<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    while (realTry(m) == EBUSY) waitOn(m, -1, 0x10c);
}

} // namespace

namespace sim {

void (*onFatal)(const char *, const std::string &) = nullptr;
uint8_t *coverage = nullptr;

void begin(const SchedConfig &cfg)
{
    makeKey();
    if (getenv("VSIM_TRACE")) g_trace = fopen(getenv("VSIM_TRACE"), "w");
    g_cfg = cfg;
    g_rng = cfg.seed * 0x2545F4914F6CDD1DULL + 0x9e3779b97f4a7c15ULL;
    g_threads = new std::vector<Thread *>();
    g_threads->reserve(1024);
    Thread *t = new Thread;
    t->id = 0;
    t->handle = pthread_self();
    t->tid = (int)rawSyscall(SYS_gettid);
    t->name = "main";
    if (cfg.starve && !cfg.replay) t->weight = (rng() & 1) ? 1 : 30;
    g_threads->push_back(t);
    t_self = t;
    g_current = t;
    g_stats.threads = 1;
    scheduleNextPreempt();
    g_active = true;
}

void end() { g_active = false; }
bool active() { return g_active; }
bool onSimThread() { return simSelf() != nullptr; }
int self() { return t_self ? t_self->id : -1; }
int64_t now() { return g_now; }

void sleepUntil(int64_t t)
{
    Thread *me = simSelf();
    if (!me) return;
    me->deadline = t;
    me->state = Sleeping;
    park(me, 0x51e);
    me->deadline = -1;
}

void yield(const char *why)
{
    uint64_t h = 0;
    for (; *why; ++why) h = h * 31 + (unsigned char)*why;
    syncPoint(h);
}

uint32_t choose(uint32_t n)
{
    if (!g_active || n < 2) return 0;
    return decide(n, g_cfg.replay ? 0 : rng() % n);
}

void blockOn(const void *addr, int64_t deadline) { if (simSelf()) waitOn(addr, deadline, 0xb10c); }
void wakeAll(const void *addr) { if (g_threads) wake(addr, INT_MAX); }
void nameThread(const char *n) { if (t_self) t_self->name = n; }
const char *threadName(int id) { return id >= 0 && g_threads && id < (int)g_threads->size() ? (*g_threads)[id]->name : "?"; }
int liveUnnamed() { int n = 0; for (auto t : *g_threads) n += t->state != Done && t != t_self && !strcmp(t->name, "worker"); return n; }
int liveThreads() { int n = 0; for (auto t : *g_threads) n += t->state != Done; return n; }
void focus(uint64_t blocks)
{
    if (!g_active || g_cfg.replay || !blocks) return;
    uint64_t at = g_stats.blocks + 1 + rng() % blocks;
    if (at < g_nextPre) g_nextPre = at;
}
void stopPreempting() { g_stopPreempt = true; }
NoPreempt::NoPreempt() { if (t_self) t_self->noPreempt++; }
NoPreempt::~NoPreempt() { if (t_self) t_self->noPreempt--; }
Stats &stats() { return g_stats; }
const std::map<uint64_t, uint32_t> &madeDecisions() { return g_made; }
const std::vector<std::pair<uint64_t, int>> &madePreemptions() { return g_madePre; }

} // namespace sim

// ---------------------------------------------------------------------------------------------------------
// interposed functions
// ---------------------------------------------------------------------------------------------------------
extern "C" {

void __sanitizer_cov_trace_pc(void)
{
    if (!g_active || !t_self || t_self->noPreempt) return;
    static thread_local uint64_t prev __attribute__((tls_model("initial-exec"))) = 0;
    uint64_t pc = (uint64_t)((char *)__builtin_return_address(0) - &__executable_start);
    if (sim::coverage) {
        uint64_t e = (pc ^ (prev << 1)) * 0x9e3779b97f4a7c15ULL;
        sim::coverage[e >> 48] = 1;
        prev = pc;
    }
    if (++g_stats.blocks > g_cfg.maxBlocks) fatal("hang", "more than the allowed number of basic blocks; " + describe());
    if (g_stats.blocks >= g_nextPre) {
        if (g_cfg.replay && g_stats.blocks > g_nextPre) { g_replayPre++; scheduleNextPreempt(); return; }
        if (t_self->noPreempt || g_stopPreempt) { if (!g_cfg.replay) scheduleNextPreempt(); else { g_replayPre++; scheduleNextPreempt(); } return; }
        if (g_trace && getenv("VSIM_BT")) { void *a[30]; int n = backtrace(a, 30); for (int i = 0; i < n; i++) fprintf(g_trace, "bt %lu %lx\n", (unsigned long)g_stats.blocks, (unsigned long)((char *)a[i] - &__executable_start)); }
        preempt(pc);
    }
}

int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg)
{
    REAL(pthread_create);
    Thread *me = simSelf();
    if (!me) return real(th, attr, fn, arg);
    if (g_threads->size() > 500) fatal("hang", "more than 500 threads created");
    Thread *t = new Thread;
    t->id = (int)g_threads->size();
    t->start = fn;
    t->arg = arg;
    if (g_cfg.starve && !g_cfg.replay) t->weight = (rng() & 1) ? 1 : 30;
    int r = real(th, attr, trampoline, t);
    if (r) { delete t; return r; }
    t->handle = *th;
    g_threads->push_back(t);
    g_stats.threads++;
    syncPoint(0xc4ea);
    return 0;
}

int pthread_join(pthread_t th, void **ret)
{
    REAL(pthread_join);
    if (simSelf()) {
        for (size_t i = g_threads->size(); i-- > 0;) {     // handles are reused: the latest counts
            Thread *t = (*g_threads)[i];
            if (pthread_equal(t->handle, th)) {
                while (t->state != Done) waitOn(t, -1, 0x101);
                break;
            }
        }
    }
    return real(th, ret);
}

int pthread_mutex_lock(pthread_mutex_t *m)
{
    REAL(pthread_mutex_lock);
    if (!simSelf()) return real(m);
    syncPoint(0x10c0);
    static auto realTry = next<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    int r;
    while ((r = realTry(m)) == EBUSY) waitOn(m, -1, 0x10c);
    return r;
}

int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *abs)
{
    REAL(pthread_mutex_timedlock);
    if (!simSelf()) return real(m, abs);
    static auto realTry = next<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    int r;
    while ((r = realTry(m)) == EBUSY)
        if (!waitOn(m, absToVirtual(abs), 0x10d)) return ETIMEDOUT;
    return r;
}

int pthread_mutex_unlock(pthread_mutex_t *m)
{
    REAL(pthread_mutex_unlock);
    int r = real(m);
    if (simSelf()) { wake(m, INT_MAX); syncPoint(0x10c1); }
    return r;
}

#define RW(name, tryname) \
    int name(pthread_rwlock_t *m) { REAL(name); if (!simSelf()) return real(m); \
        static auto realTry = next<int (*)(pthread_rwlock_t *)>(#tryname); int r; \
        while ((r = realTry(m)) == EBUSY) waitOn(m, -1, 0x10e); return r; }
RW(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock)
RW(pthread_rwlock_wrlock, pthread_rwlock_trywrlock)
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    REAL(pthread_rwlock_unlock);
    int r = real(m);
    if (simSelf()) { wake(m, INT_MAX); syncPoint(0x10c2); }
    return r;
}

static int condWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t deadline)
{
    static auto realUnlock = next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    realUnlock(m);
    wake(m, INT_MAX);
    bool ok = waitOn(c, deadline, 0xc0d);
    lockSim(m);
    return ok ? 0 : ETIMEDOUT;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    REALV(pthread_cond_wait, "GLIBC_2.3.2");
    if (!simSelf()) return real(c, m);
    return condWait(c, m, -1);
}

int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *abs)
{
    REALV(pthread_cond_timedwait, "GLIBC_2.3.2");
    if (!simSelf()) return real(c, m, abs);
    return condWait(c, m, absToVirtual(abs));
}

int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *abs)
{
    REAL(pthread_cond_clockwait);
    if (!simSelf()) return real(c, m, clk, abs);
    return condWait(c, m, absToVirtual(abs));
}

int pthread_cond_signal(pthread_cond_t *c)
{
    REALV(pthread_cond_signal, "GLIBC_2.3.2");
    if (!simSelf()) return real(c);
    wake(c, 1);
    return 0;
}

int pthread_cond_broadcast(pthread_cond_t *c)
{
    REALV(pthread_cond_broadcast, "GLIBC_2.3.2");
    if (!simSelf()) return real(c);
    wake(c, INT_MAX);
    return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    REAL(pthread_once);
    if (!simSelf()) return real(o, fn);
    // glibc would block for real when another thread is inside fn
    static std::map<pthread_once_t *, int> *running = new std::map<pthread_once_t *, int>;
    for (;;) {
        auto it = running->find(o);
        if (it == running->end()) break;
        if (it->second == t_self->id) break;
        waitOn(o, -1, 0x0ce);
    }
    (*running)[o] = t_self->id;
    struct Guard {
        pthread_once_t *o;
        ~Guard() { running->erase(o); if (g_active) wake(o, INT_MAX); }
    } g{o};
    return real(o, fn);
}

int sem_wait(sem_t *s)
{
    REAL(sem_wait);
    if (!simSelf()) return real(s);
    while (sem_trywait(s) != 0) waitOn(s, -1, 0x5e3);
    return 0;
}
int sem_post(sem_t *s)
{
    REAL(sem_post);
    int r = real(s);
    if (simSelf()) { wake(s, INT_MAX); syncPoint(0x5e4); }
    return r;
}

int sched_yield(void)
{
    if (!simSelf()) return (int)rawSyscall(SYS_sched_yield);
    // a spinning thread must let the others make progress
    Thread *me = t_self;
    me->deadline = g_now + 1000;
    me->state = Sleeping;
    park(me, 0x71e1d);
    me->deadline = -1;
    return 0;
}

int clock_gettime(clockid_t clk, struct timespec *ts)
{
    if (g_active && (clk == CLOCK_MONOTONIC || clk == CLOCK_REALTIME || clk == CLOCK_MONOTONIC_RAW || clk == CLOCK_MONOTONIC_COARSE
                     || clk == CLOCK_REALTIME_COARSE || clk == CLOCK_BOOTTIME)) {
        int64_t v = EpochNs + g_now;
        ts->tv_sec = v / 1000000000LL;
        ts->tv_nsec = v % 1000000000LL;
        return 0;
    }
    long r = rawSyscall(SYS_clock_gettime, clk, (long)ts);
    if (r < 0) { errno = (int)-r; return -1; }
    return 0;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

int nanosleep(const struct timespec *req, struct timespec *rem)
{
    if (!simSelf()) {
        long r = rawSyscall(SYS_nanosleep, (long)req, (long)rem);
        if (r < 0) { errno = (int)-r; return -1; }
        return 0;
    }
    sim::sleepUntil(g_now + req->tv_sec * 1000000000LL + req->tv_nsec);
    return 0;
}

int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
{
    if (!simSelf()) {
        long r = rawSyscall(SYS_clock_nanosleep, clk, flags, (long)req, (long)rem);
        return r < 0 ? (int)-r : 0;
    }
    int64_t v = req->tv_sec * 1000000000LL + req->tv_nsec;
    sim::sleepUntil(flags & TIMER_ABSTIME ? v - EpochNs : g_now + v);
    return 0;
}

int usleep(useconds_t us)
{
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}

static int simPoll(struct pollfd *fds, nfds_t n, int64_t timeout)
{
    Thread *me = t_self;
    int64_t deadline = timeout < 0 ? -1 : g_now + timeout;
    syncPoint(0x9011);
    for (;;) {
        struct timespec z = {0, 0};
        long r = rawSyscall(SYS_ppoll, (long)fds, (long)n, (long)&z, 0, 8);
        if (r < 0) { errno = (int)-r; return -1; }
        if (r > 0) return (int)r;
        if (deadline >= 0 && g_now >= deadline) return 0;
        me->fds = fds;
        me->nfds = n;
        me->pollEpoch = g_ioEpoch;
        me->deadline = deadline;
        me->state = Polling;
        park(me, 0x9012);
        me->deadline = -1;
    }
}

int ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
    if (!simSelf()) {
        struct timespec t2;
        if (ts) t2 = *ts;
        long r = rawSyscall(SYS_ppoll, (long)fds, (long)n, ts ? (long)&t2 : 0, (long)ss, 8);
        if (r < 0) { errno = (int)-r; return -1; }
        return (int)r;
    }
    return simPoll(fds, n, ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec : -1);
}

int poll(struct pollfd *fds, nfds_t n, int ms)
{
    if (!simSelf()) {
        long r = rawSyscall(SYS_poll, (long)fds, (long)n, ms);
        if (r < 0) { errno = (int)-r; return -1; }
        return (int)r;
    }
    return simPoll(fds, n, ms < 0 ? -1 : (int64_t)ms * 1000000LL);
}

int eventfd_write(int fd, eventfd_t v)
{
    long r = rawSyscall(SYS_write, fd, (long)&v, sizeof v);
    g_ioEpoch++;
    syncPoint(0xefd);
    return r == (long)sizeof v ? 0 : -1;
}

ssize_t write(int fd, const void *buf, size_t n)
{
    long r = rawSyscall(SYS_write, fd, (long)buf, (long)n);
    g_ioEpoch++;
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

int getentropy(void *p, size_t n)
{
    // no real randomness inside a run
    if (g_active) { memset(p, 0x5a, n); return 0; }
    long r = rawSyscall(SYS_getrandom, (long)p, (long)n, 0);
    return r == (long)n ? 0 : -1;
}

ssize_t getrandom(void *p, size_t n, unsigned flags)
{
    if (g_active) { memset(p, 0x5a, n); return (ssize_t)n; }
    return rawSyscall(SYS_getrandom, (long)p, (long)n, flags);
}

static long simFutex(int *addr, int op, int val, const struct timespec *ts, int *addr2, int val3)
{
    int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    switch (cmd) {
    case FUTEX_WAIT:
    case FUTEX_WAIT_BITSET: {
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        int64_t dl = -1;
        if (ts) dl = cmd == FUTEX_WAIT ? g_now + ts->tv_sec * 1000000000LL + ts->tv_nsec : absToVirtual(ts);
        if (!waitOn(addr, dl, 0xf07)) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    case FUTEX_WAKE:
    case FUTEX_WAKE_BITSET: {
        long n = wake(addr, val);
        syncPoint(0xf08);
        return n;
    }
    case FUTEX_WAKE_OP: {
        unsigned e = (unsigned)val3;
        int opr = (e >> 28) & 0xf, cmp = (e >> 24) & 0xf;
        int oparg = ((int)(e << 8)) >> 20, cmparg = ((int)(e << 20)) >> 20;
        if (opr & 8) oparg = 1 << oparg;
        int old = __atomic_load_n(addr2, __ATOMIC_SEQ_CST), nv = old;
        switch (opr & 7) {
        case 0: nv = oparg; break;
        case 1: nv = old + oparg; break;
        case 2: nv = old | oparg; break;
        case 3: nv = old & ~oparg; break;
        case 4: nv = old ^ oparg; break;
        }
        __atomic_store_n(addr2, nv, __ATOMIC_SEQ_CST);
        long n = wake(addr, val);
        bool c = false;
        switch (cmp) {
        case 0: c = old == cmparg; break;
        case 1: c = old != cmparg; break;
        case 2: c = old < cmparg; break;
        case 3: c = old <= cmparg; break;
        case 4: c = old > cmparg; break;
        case 5: c = old >= cmparg; break;
        }
        if (c) n += wake(addr2, (int)(intptr_t)ts);
        syncPoint(0xf09);
        return n;
    }
    default:
        fatal("unsupported", "futex operation not modelled");
    }
    return -1;
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && simSelf()) return simFutex((int *)a, (int)b, (int)c, (const struct timespec *)d, (int *)e, (int)f);
    if (n == SYS_getrandom && g_active) { memset((void *)a, 0x5a, (size_t)b); return b; }
    long r = rawSyscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

} // extern "C"
