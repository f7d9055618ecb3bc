#include "sim.h"
#include "rng.h"
#include <cstdlib>
#include <sstream>

bool Line::has(const char *k) const { for (auto &p : kv) if (p.first == k) return true; return false; }
std::string Line::get(const char *k, const std::string &def) const { for (auto &p : kv) if (p.first == k) return p.second; return def; }
int64_t Line::num(const char *k, int64_t def) const { for (auto &p : kv) if (p.first == k) return strtoll(p.second.c_str(), nullptr, 10); return def; }
std::vector<int64_t> Line::list(const char *k) const
{
    std::vector<int64_t> r;
    std::stringstream ss(get(k));
    std::string x;
    while (std::getline(ss, x, ',')) if (!x.empty()) r.push_back(strtoll(x.c_str(), nullptr, 10));
    return r;
}
Line &Line::set(const char *k, const std::string &v) { for (auto &p : kv) if (p.first == k) { p.second = v; return *this; } kv.push_back({k, v}); return *this; }
Line &Line::set(const char *k, int64_t v) { return set(k, std::to_string(v)); }
Line &Line::set(const char *k, const std::vector<int64_t> &v)
{
    std::string s;
    for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x);
    return set(k, s);
}
std::string Line::text() const { std::string s = kind; for (auto &p : kv) s += " " + p.first + "=" + p.second; return s; }
std::string Plan::text() const
{
    std::string s = "plan scenario=" + scenario + " profile=" + profile + " seed=" + std::to_string(seed) + "\n";
    for (auto &l : lines) s += l.text() + "\n";
    return s;
}
Plan Plan::parse(const std::string &text)
{
    Plan p;
    std::stringstream ss(text);
    std::string row;
    while (std::getline(ss, row)) {
        if (row.empty() || row[0] == '#') continue;
        std::stringstream rs(row);
        Line l;
        rs >> l.kind;
        std::string kv;
        while (rs >> kv) {
            size_t e = kv.find('=');
            if (e == std::string::npos) continue;
            l.kv.push_back({kv.substr(0, e), kv.substr(e + 1)});
        }
        if (l.kind == "plan") {
            p.scenario = l.get("scenario");
            p.profile = l.get("profile");
            p.seed = strtoull(l.get("seed").c_str(), nullptr, 10);
        } else if (l.kind == "violation" || l.kind == "decision" || l.kind == "preempt" || l.kind == "expect") {
            continue;
        } else {
            p.lines.push_back(l);
        }
    }
    return p;
}
const Line *Plan::find(const char *kind) const { for (auto &l : lines) if (l.kind == kind) return &l; return nullptr; }

sim::SchedConfig schedOf(const Plan &p)
{
    sim::SchedConfig c;
    c.seed = p.seed * 2654435761u + 12345;
    if (const Line *l = p.find("sched")) {
        c.pSwitch = double(l->num("switch", 200)) / 1000;
        c.preemptMean = uint64_t(l->num("preempt", 0));
        c.pSpurious = double(l->num("spurious", 0)) / 1000;
        c.pStall = double(l->num("stall", 0)) / 1000;
        c.maxStall = l->num("maxstall", 0);
        c.starve = l->num("starve", 0) != 0;
    }
    return c;
}
