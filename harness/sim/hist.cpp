#include "sim.h"
#include "rng.h"

std::vector<Ev> g_hist;
std::map<std::string, uint64_t> g_fired, g_probe;
std::vector<Violation> g_viol;

void hist(EvT type, int64_t a, int64_t b, int64_t c, const std::string &s)
{
    g_hist.push_back(Ev{type, sim::now(), sim::self(), a, b, c, s});
}
uint64_t histHash()
{
    uint64_t h = 1469598103934665603ULL;
    for (auto &e : g_hist) {
        int64_t v[6] = {int64_t(e.type), e.t, e.thread, e.a, e.b, e.c};
        h = fnv(v, sizeof v, h);
        h = fnv(e.s.data(), e.s.size(), h);
    }
    return h;
}
std::string histText(const Ev &e)
{
    static const char *n[] = {"subscribe-begin", "subscribe-end", "message", "return-object", "stream-error", "stream-finished", "call-begin", "call-end",
        "call-ok", "call-error", "abort-begin", "abort-end", "attach-begin", "attach-end", "destroy-begin", "destroy-end",
        "client-error", "request", "cancel", "bytes", "bytes-done", "close", "close-done", "late-read", "slow-app",
        "qml-set", "qml-set-end", "qml-message", "qml-error", "qml-enabled", "qml-enabled-end", "qml-destroy", "qml-destroyed", "final", "note", "read", "return-object-gone", "left", "take-over"};
    char b[160];
    snprintf(b, sizeof b, "%12.6f ms %-8s %-16s a=%lld b=%lld c=%lld ", double(e.t) / 1e6, sim::threadName(e.thread), n[e.type],
             (long long)e.a, (long long)e.b, (long long)e.c);
    return std::string(b) + e.s;
}
void violation(const std::string &props, const std::string &words)
{
    std::string text = words;
    for (auto &c : text) if (static_cast<unsigned char>(c) < 0x20 || static_cast<unsigned char>(c) >= 0x7f) c = '?';
    for (auto &v : g_viol) if (v.props == props && v.text == text) return;
    if (g_viol.size() < 40) g_viol.push_back({props, text});
}
