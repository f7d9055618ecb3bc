// vsim plan PROFILE SEED            print the plan of a run
// vsim run PROFILE SEED             one run, with its history
// vsim replay FILE [-v]             re-execute a recorded run
// vsim batch PROFILE FIRST COUNT STEP SECONDS   many runs, each in a forked child; one line per finding, summary at the end
// vsim record PROFILE SEED          one run; prints the replay file
#include "sim.h"
#include "rng.h"
#include <QtGlobal>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
Plan g_plan;
sim::SchedConfig g_sched;
int g_out = 1;
bool g_verbose = false, g_record = false;

void put(const std::string &s)
{
    size_t o = 0;
    while (o < s.size()) {
        ssize_t n = ::write(g_out, s.data() + o, s.size() - o);
        if (n <= 0) break;
        o += size_t(n);
    }
}

void fatalHook(const char *kind, const std::string &detail)
{
    if (!strcmp(kind, "unsupported")) {
        put("E " + detail + "\nend\n");
        _exit(0);
    }
    violation("*", std::string(kind) + ": " + detail);
    finishRun();
}

void execute(const Plan &plan, const sim::SchedConfig &cfg)
{
    g_plan = plan;
    g_sched = cfg;
    sim::onFatal = fatalHook;
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    alarm(60);
    sim::begin(cfg);
    if (plan.scenario == "codec") runCodec(plan);
    else if (plan.scenario == "plugin") runPlugin(plan);
    else runGrpc(plan);
    finishRun();
}

std::string slurp(const char *p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
}

void finishRun()
{
    int64_t t = sim::now();
    sim::Stats st = sim::stats();
    auto dec = sim::madeDecisions();
    auto pre = sim::madePreemptions();
    std::ostringstream o;
    if (g_verbose) for (auto &e : g_hist) o << "# " << histText(e) << "\n";
    char b[400];
    snprintf(b, sizeof b, "R hist=%016lx sched=%016lx t=%lld steps=%lu blocks=%lu switches=%lu preempts=%lu stalls=%lu spurious=%lu threads=%lu jumps=%lu events=%zu\n",
             (unsigned long)histHash(), (unsigned long)st.schedHash, (long long)t, (unsigned long)st.steps, (unsigned long)st.blocks, (unsigned long)st.switches,
             (unsigned long)st.preempts, (unsigned long)st.stalls, (unsigned long)st.spurious, (unsigned long)st.threads, (unsigned long)st.timeJumps, g_hist.size());
    o << b;
    if (st.stalls) g_fired["thread stalled"] += st.stalls;
    if (st.spurious) g_fired["spurious wakeup"] += st.spurious;
    if (st.preempts) g_fired["preemption"] += st.preempts;
    for (auto &f : g_fired) o << "F " << f.second << " " << f.first << "\n";
    for (auto &f : g_probe) o << "P " << f.second << " " << f.first << "\n";
    for (auto &v : g_viol) o << "V " << v.props << " | " << v.text << "\n";
    if (g_record) {
        for (auto &d : dec) o << "decision " << d.first << " " << d.second << "\n";
        for (auto &d : pre) o << "preempt " << d.first << " " << d.second << "\n";
    }
    o << "end\n";
    put(o.str());
    _exit(0);
}

namespace {
struct Agg {
    uint64_t runs = 0, steps = 0, blocks = 0, switches = 0, preempts = 0, threads = 0, jumps = 0, events = 0, errors = 0, viol = 0;
    double simSec = 0;
    std::set<std::string> scheds, hists;
    std::map<std::string, uint64_t> fired, probes, firedRuns, probeRuns;
};

// runs one plan in a forked child; returns the child's report
std::string child(const Plan &plan, const sim::SchedConfig &cfg, bool record, bool verbose, const char *errFile)
{
    int fd[2];
    if (pipe(fd)) return "E pipe\nend\n";
    pid_t pid = fork();
    if (pid < 0) return "E fork\nend\n";
    if (!pid) {
        close(fd[0]);
        g_out = fd[1];
        g_record = record;
        g_verbose = verbose;
        int e = open(errFile, O_CREAT | O_TRUNC | O_WRONLY, 0600);
        if (e >= 0) { dup2(e, 2); close(e); }
        execute(plan, cfg);
        _exit(0);
    }
    close(fd[1]);
    std::string r;
    char buf[65536];
    for (;;) {
        ssize_t n = read(fd[0], buf, sizeof buf);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        r.append(buf, size_t(n));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (plan.scenario == "plugin") {
        std::string d = std::string(getenv("VSIM_TMP") ? getenv("VSIM_TMP") : "/tmp") + "/vsim-plug." + std::to_string(pid);
        for (const char *n : {"alpha", "beta", "gamma", "other"}) { std::string f = d + "/lib" + n + ".so"; unlink(f.c_str()); rmdir(f.c_str()); }
        rmdir(d.c_str());
    }
    if (r.size() < 4 || r.compare(r.size() - 4, 4, "end\n")) {
        // died: sanitizer report, signal or uncaught exception
        std::string err = slurp(errFile), what;
        std::stringstream es(err);
        std::string row;
        int frames = 0;
        while (std::getline(es, row)) {
            if (row.find("ERROR: AddressSanitizer") != std::string::npos || row.find("terminate called") != std::string::npos || row.find("what():") != std::string::npos ||
                row.find("Assertion") != std::string::npos || row.find("ASSERT") != std::string::npos) {
                size_t p = row.find("AddressSanitizer");
                what += (p == std::string::npos ? row : row.substr(p)) + " ";
            }
            if (row.find("#") != std::string::npos && row.find(" in ") != std::string::npos && frames < 4 && row.find("/src/") != std::string::npos) {
                what += "[" + row.substr(row.find(" in ") + 4) + "] ";
                frames++;
            }
        }
        // addresses differ between builds: leave them out
        std::string w2;
        for (size_t i = 0; i < what.size(); i++) {
            if (what.compare(i, 2, "0x") == 0) { w2 += "0x.."; i += 2; while (i < what.size() && isxdigit(static_cast<unsigned char>(what[i]))) i++; i--; }
            else w2 += what[i];
        }
        if (w2.size() > 500) w2.resize(500);
        char b[64];
        if (WIFSIGNALED(st)) snprintf(b, sizeof b, "%s", WTERMSIG(st) == SIGALRM ? "hang: no progress in real time" : (std::string("crash: signal ") + std::to_string(WTERMSIG(st))).c_str());
        else snprintf(b, sizeof b, "crash: exit %d", WEXITSTATUS(st));
        r = std::string("V * | ") + b + " " + w2 + "\nend\n";
    }
    if (plan.scenario == "codec" && !plan.find("solo") && r.find(" | mismatch: ") != std::string::npos) {
        // a wrong result counts only if the same work done by one thread after the other gives a right one
        Plan q = plan;
        Line l;
        l.kind = "solo";
        q.lines.push_back(l);
        sim::SchedConfig calm;
        calm.pSwitch = 0;
        if (child(q, calm, false, false, errFile).find(" | mismatch: ") != std::string::npos) {
            std::stringstream ss(r);
            std::string row, kept;
            while (std::getline(ss, row)) if (row.find(" | mismatch: ") == std::string::npos) kept += row + "\n";
            r = kept;
        }
    }
    return r;
}

void account(Agg &a, const std::string &rep)
{
    std::stringstream ss(rep);
    std::string row;
    a.runs++;
    bool nontrivial = rep.find("\nF ") != std::string::npos;
    while (std::getline(ss, row)) {
        if (row.empty()) continue;
        if (row[0] == 'R') {
            unsigned long h, s, steps, blocks, sw, pr, stl, sp, th, j;
            long long t;
            size_t ev;
            if (sscanf(row.c_str(), "R hist=%lx sched=%lx t=%lld steps=%lu blocks=%lu switches=%lu preempts=%lu stalls=%lu spurious=%lu threads=%lu jumps=%lu events=%zu",
                       &h, &s, &t, &steps, &blocks, &sw, &pr, &stl, &sp, &th, &j, &ev) == 12) {
                a.steps += steps; a.blocks += blocks; a.switches += sw; a.preempts += pr; a.threads += th; a.jumps += j; a.events += ev;
                a.simSec += double(t) / 1e9;
                a.scheds.insert(std::to_string(s));
                if (nontrivial && ev >= 8) a.hists.insert(std::to_string(h));
            }
        } else if (row[0] == 'F' || row[0] == 'P') {
            size_t p = row.find(' ', 2);
            uint64_t n = strtoull(row.c_str() + 2, nullptr, 10);
            std::string k = row.substr(p + 1);
            if (row[0] == 'F') { a.fired[k] += n; a.firedRuns[k]++; } else { a.probes[k] += n; a.probeRuns[k]++; }
        } else if (row[0] == 'V') a.viol++;
        else if (row[0] == 'E') a.errors++;
    }
}

sim::SchedConfig readSched(const std::string &text, const Plan &plan)
{
    sim::SchedConfig c = schedOf(plan);
    c.replay = true;
    std::stringstream ss(text);
    std::string row;
    while (std::getline(ss, row)) {
        unsigned long i;
        long v;
        if (sscanf(row.c_str(), "decision %lu %ld", &i, &v) == 2) c.decisions[i] = uint32_t(v);
        if (sscanf(row.c_str(), "preempt %lu %ld", &i, &v) == 2) c.preemptions.push_back({i, int(v)});
    }
    return c;
}
double wallNow() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) / 1e9; }
}

int main(int argc, char **argv)
{
    if (!getenv("VSIM_CHILD")) {
        setenv("VSIM_CHILD", "1", 1);
        setenv("QT_NO_GLIB", "1", 1);
        setenv("QT_HASH_SEED", "0", 1);
        setenv("LD_BIND_NOW", "1", 1);
        setenv("QV4_FORCE_INTERPRETER", "1", 1);
        setenv("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allocator_may_return_null=0:max_allocation_size_mb=200:detect_odr_violation=0:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=4:quarantine_size_mb=16", 1);
        setenv("LC_ALL", "C.UTF-8", 1);
        unsetenv("QT_PROTOBUF_PLUGIN_PATH");
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    std::vector<std::string> a(argv + 1, argv + argc);
    if (a.empty()) return 2;
    std::string tmp = std::string(getenv("VSIM_TMP") ? getenv("VSIM_TMP") : "/tmp") + "/vsim." + std::to_string(getpid()) + ".err";
    sim::coverage = static_cast<uint8_t *>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (a[0] == "plan" && a.size() > 2) { std::cout << makePlan(a[1], strtoull(a[2].c_str(), nullptr, 10)).text(); return 0; }
    if ((a[0] == "run" || a[0] == "record") && a.size() > 2) {
        Plan p = makePlan(a[1], strtoull(a[2].c_str(), nullptr, 10));
        std::string r = child(p, schedOf(p), a[0] == "record", a[0] == "run", tmp.c_str());
        std::cout << (a[0] == "record" ? p.text() : "") << r;
        if (a.size() > 3) std::cout << slurp(tmp.c_str());
        unlink(tmp.c_str());
        return 0;
    }
    if (a[0] == "replay" && a.size() > 1) {
        std::string text = slurp(a[1].c_str());
        Plan p = Plan::parse(text);
        std::string r = child(p, readSched(text, p), false, a.size() > 2, tmp.c_str());
        std::cout << r;
        if (a.size() > 2) std::cout << slurp(tmp.c_str());
        unlink(tmp.c_str());
        return 0;
    }
    if (a[0] == "serve") {
        // replays files named on stdin, one report each (minimisation)
        std::string f;
        while (std::getline(std::cin, f)) {
            std::string text = slurp(f.c_str());
            Plan p = Plan::parse(text);
            std::cout << child(p, readSched(text, p), true, false, tmp.c_str()) << std::flush;
        }
        unlink(tmp.c_str());
        return 0;
    }
    if (a[0] == "batch" && a.size() > 5) {
        uint64_t first = strtoull(a[2].c_str(), nullptr, 10), count = strtoull(a[3].c_str(), nullptr, 10), step = strtoull(a[4].c_str(), nullptr, 10);
        double limit = atof(a[5].c_str()), t0 = wallNow();
        bool hashes = a.size() > 6 && a[6] == "hashes";
        Agg agg;
        for (uint64_t i = 0; i < count; i++) {
            if (limit > 0 && wallNow() - t0 > limit) break;
            uint64_t seed = first + i * step;
            Plan p = makePlan(a[1], seed);
            std::string r = child(p, schedOf(p), false, false, tmp.c_str());
            account(agg, r);
            std::stringstream ss(r);
            std::string row;
            while (std::getline(ss, row)) {
                if (row[0] == 'V' || row[0] == 'E') std::cout << row[0] << " " << seed << " " << row.substr(2) << std::endl;
                if (hashes && row[0] == 'R') std::cout << "H " << seed << " " << row << std::endl;
            }
        }
        size_t edges = 0;
        for (int i = 0; i < 65536; i++) edges += sim::coverage[i] != 0;
        std::cout << "S runs=" << agg.runs << " steps=" << agg.steps << " blocks=" << agg.blocks << " switches=" << agg.switches << " preempts=" << agg.preempts
                  << " threads=" << agg.threads << " jumps=" << agg.jumps << " events=" << agg.events << " errors=" << agg.errors << " viol=" << agg.viol
                  << " simsec=" << uint64_t(agg.simSec) << " wall=" << wallNow() - t0 << " edges=" << edges << "\n";
        for (auto &f : agg.fired) std::cout << "F " << f.second << " " << agg.firedRuns[f.first] << " " << f.first << "\n";
        for (auto &f : agg.probes) std::cout << "P " << f.second << " " << agg.probeRuns[f.first] << " " << f.first << "\n";
        for (auto &s : agg.scheds) std::cout << "D " << s << "\n";
        for (auto &s : agg.hists) std::cout << "G " << s << "\n";
        std::string cov;
        for (int i = 0; i < 65536; i += 4) { int v = 0; for (int k = 0; k < 4; k++) v |= (sim::coverage[i + k] ? 1 : 0) << k; cov += "0123456789abcdef"[v]; }
        std::cout << "C " << cov << "\n";
        unlink(tmp.c_str());
        return 0;
    }
    return 2;
}
