// Seeded generation of runs: which world, which operations, what the servers and the network do, how threads are
// scheduled. Each seed switches a random subset of the features of its profile on (so that rare combinations are not
// drowned), and times are drawn so that events collide.
#include "sim.h"
#include "rng.h"
#include <QNetworkReply>
#include <algorithm>

Plan makeQmlPlan(const std::string &profile, uint64_t seed);
Plan makeCodecPlan(const std::string &profile, uint64_t seed);
Plan makePluginPlan(const std::string &profile, uint64_t seed);

namespace {
const int64_t MS = 1000000LL, SEC = 1000 * MS;

const int netErrors[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 99, 101, 102, 103, 104, 105, 199, 201, 202, 203, 204, 205, 206, 207, 299, 301, 302, 399, 401, 402, 403, 499};

struct Knobs {
    int calls = 0, subs = 0;               // how many, at most
    double pTogether = 0.15;                // threads: all at the same time
    double pQuiet = 0.04;                   // a server that is silent for long
    double pAsync = 0.5, pCb = 0.15;       // rest blocking
    double pNative = 0.35, pBoth = 0.3;    // channel kinds
    int clients = 2, chans = 2;
    double pThreads = 0.08;                  // of the run having user threads
    double pAbort = 0, pAbortCall = 0, pAttach = 0, pDestroy = 0, pBad = 0, pNoChan = 0.03, pSlow = 0.02;
    double pHandler = 0.2;                 // operations inside handlers
    double pShare = 0.15;                  // several subscribers of one stream
    double pBreak = 0.5;                   // a connection ends with a failure rather than staying or completing
    double pComplete = 0.3;
    double pNever = 0.1;                   // unary calls never answered
    double pStatus = 0.3;                  // unary calls failed by the server or the network
    double pBigTail = 0.1;
    int attempts = 3, msgs = 6;
    double pMany = 0.04;                   // three times as many calls and streams
    double pOutage = 0.02;                 // many failures in a row
    double pBurst = 0.01;                  // connections with very many messages
    double pHome = 0.08;                   // a client that lives in a thread of its own
    double pAway = 0.08;                   // everything away from the application's main thread
    double pArr = 0.1;                     // operations right before or after something comes from the server
    double pMoment = 0.15;                 // at the time something comes from the server
    double pRead = 0.3;                    // threads that read the handles of others
    double pStall = 0.08, pJs = 0.1;
    double pThreadFocus = 0.35;            // schedules with preemption
};

struct G {
    Plan p;
    Rng r;
    Knobs k;
    int nextOp = 1;
    int64_t nextUid = 16;
    struct C { int id; int chan; bool native; bool threads = false; bool attachUsed = false; bool destroyed = false; bool home = false; };
    std::vector<C> clients;
    struct Ch { int id; bool native; };
    std::vector<Ch> chans;
    int twin = -1;
    struct K { int client; std::string m; int64_t uid; int asz; std::vector<int> ops; bool native; bool multi = false; };
    std::vector<K> keys;
    std::vector<int> subOps, callOps, asyncOps, jsOps;
    bool js = false;                       // calls made from QML, too
    bool quick = false;                    // QML elements: their arguments are of one type
    std::map<int, int> opClient;
    std::map<int, size_t> opKey;
    bool emptyArgUsed = false;
    bool handlerAttach = false;
    std::vector<int64_t> hot;

    G(uint64_t seed) : r(mix(seed, 0x5eed)) {}
    bool on(double x) { return r.chance(x); }

    // when something comes from the server for an operation
    std::vector<int64_t> moments(int ref)
    {
        std::vector<int64_t> v;
        Line &l = line(ref);
        if (!l.has("t") || !l.has("uid")) return v;
        int64_t t = l.num("t");
        for (auto &b : p.lines) {
            if (b.kind != "beh" || b.num("uid") != l.num("uid") || b.get("m") != l.get("m")) continue;
            t += b.num("lat");
            std::vector<int64_t> gaps = b.list("gaps");
            if (gaps.empty() && b.has("sizes")) v.push_back(t);
            for (int64_t g : gaps) { t += g; v.push_back(t); }
            if (b.get("end") == "open") break;
            t += b.num("endgap");
            v.push_back(t);
            if (b.get("end") == "ok") break;
            if (b.get("end") != "ne" || b.num("endarg") != 2 || b.num("native")) { t += SEC; v.push_back(t); }
        }
        return v;
    }
    int64_t moment(int ref)
    {
        std::vector<int64_t> v = moments(ref);
        if (v.empty()) return -1;
        int64_t t = v[r.below(v.size())];
        switch (r.below(4)) {
        case 0: return std::max<int64_t>(0, t + r.range(-20, 20) * 10000);
        case 1: return t + r.range(0, 30) * 100;
        default: return t;
        }
    }
    int64_t when()
    {
        if (on(k.pMoment)) {
            std::vector<int> &o = !subOps.empty() && (callOps.empty() || on(0.6)) ? subOps : callOps;
            int64_t t = o.empty() ? -1 : moment(o[r.below(o.size())]);
            if (t >= 0) return t;
        }
        switch (r.below(6)) {
        case 0: return r.range(0, 50) * MS / 10 * 10;
        case 1: return hot.empty() ? r.range(0, 100) * MS : hot[r.below(hot.size())];
        case 2: return hot.empty() ? r.range(0, 100) * MS : std::max<int64_t>(0, hot[r.below(hot.size())] + r.range(-3, 3) * MS / 3);
        case 3: return r.range(0, 1300) * MS;
        case 4: return r.range(0, 3) * SEC + r.range(0, 60) * MS;
        default: return r.range(0, 400) * MS;
        }
    }
    void sched()
    {
        Line l;
        l.kind = "sched";
        js = on(k.pJs);
        static const int sw[] = {0, 20, 100, 300, 600};
        l.set("switch", sw[r.below(5)]);
        if (on(k.pThreadFocus)) {
            static const int pm[] = {150, 600, 2500, 10000, 40000};
            l.set("preempt", pm[r.below(5)]);
        }
        if (on(0.15)) l.set("spurious", 10);
        if (on(k.pStall)) { l.set("stall", int64_t(1 + r.below(4))); l.set("maxstall", r.range(1, 300) * MS); }
        if (on(0.12)) l.set("starve", 1);
        p.lines.push_back(l);
    }
    void world()
    {
        int nc = int(1 + r.below(uint64_t(k.chans)));
        bool both = on(k.pBoth), nat = on(k.pNative);
        for (int i = 0; i < nc; i++) {
            Line l;
            l.kind = "chan";
            bool n = both ? on(0.5) : nat;
            l.set("id", i + 1).set("kind", n ? "n" : "h");
            if (!n) { static const char *sc[] = {"http", "http", "https", "none"}; l.set("scheme", sc[r.below(4)]); }
            if (!n && on(0.4)) l.set("cred", int64_t(1 + r.below(4))).set("user", int64_t(r.below(6))).set("password", int64_t(r.below(6)));
            if (!n && on(0.2)) l.set("slash", int64_t(1 + r.below(2)));
            p.lines.push_back(l);
            chans.push_back({i + 1, n});
        }
        int n = int(1 + r.below(uint64_t(k.clients)));
        for (int i = 0; i < n; i++) {
            Line l;
            l.kind = "client";
            Ch &c = chans[r.below(chans.size())];
            bool no = on(k.pNoChan);
            l.set("id", i + 1).set("chan", no ? -1 : c.id);
            if (on(0.3)) l.set("svc", "aux");
            else if (!js && !quick && on(0.4)) l.set("svc", "deep");
            p.lines.push_back(l);
            clients.push_back({i + 1, no ? -1 : c.id, c.native});
        }
        if (!quick && on(k.pHome)) {
            // a client with its own channel in a thread of its own
            Line l;
            l.kind = "chan";
            bool nn = on(0.3);
            l.set("id", nc + 1).set("kind", nn ? "n" : "h").set("home", 1);
            if (!nn) l.set("scheme", on(0.7) ? "http" : "https");
            p.lines.push_back(l);
            Line c;
            c.kind = "client";
            c.set("id", n + 1).set("chan", nc + 1).set("home", 1);
            if (on(0.3)) c.set("svc", "aux");
            p.lines.push_back(c);
            clients.push_back({n + 1, nc + 1, nn});
            clients.back().threads = clients.back().home = true;
        }
        Line w;
        w.kind = "world";
        if (!quick && !js && on(k.pAway)) w.set("away", 1);
        w.set("reuse", int64_t(r.below(2)));
        if (k.pAttach > 0 && on(0.3)) w.set("foreign", 1);
        if (on(0.3)) w.set("chansfirst", 1);
        if (on(0.1)) w.set("slowcancel", r.range(1, 400) * MS);
        p.lines.push_back(w);
    }
    Line &op(const char *kind)
    {
        Line l;
        l.kind = "op";
        l.set("id", nextOp++).set("k", kind);
        p.lines.push_back(l);
        return p.lines.back();
    }
    int size()
    {
        static const int s[] = {0, 1, 1, 2, 2, 2, 3, 3, 5, 5, 6, 4, 9};
        int v = s[r.below(13)];
        if (v == 4 && on(0.1)) v = on(0.15) ? 12 : 7;
        return v;
    }
    std::string statusMsg() { static const char *m[] = {"", "nope", "server-says-no", "x", "a:b/c?d", "@utf8", "@percent", "@lines", "@long"}; return m[r.below(on(0.4) ? 9 : 5)]; }
    // encodings a server may choose
    void shapes(Line &b, size_t n)
    {
        if (!n) return;
        if (on(0.06)) b.set("gz", 1);
        if (!on(0.15)) return;
        std::vector<int64_t> v;
        for (size_t i = 0; i < n; i++) v.push_back(on(0.6) ? int64_t(1 + r.below(1000000)) : 0);
        b.set("shape", v);
    }
    void ending(Line &b, bool native, bool stream)
    {
        // failures
        int c = int(r.below(10));
        if (c < 4) { b.set("end", "st").set("endarg", r.range(1, 16)).set("endmsg", statusMsg()); }
        else if (c < 9 || native) {
            b.set("end", "ne");
            int e = on(0.45) ? 2 : netErrors[r.below(sizeof netErrors / sizeof *netErrors)];
            if (!stream && on(0.5)) e = netErrors[r.below(sizeof netErrors / sizeof *netErrors)];
            b.set("endarg", e).set("endmsg", "gone");
        } else b.set("end", "ssl");
    }
    void cutting(Line &b)
    {
        b.set("cut", int64_t(r.below(6))).set("cutseed", int64_t(r.below(1000000)));
        static const int64_t j[] = {0, 1000, 200000, 5 * MS, 50 * MS};
        b.set("jit", j[r.below(5)]);
        if (on(0.1)) b.set("unread", 1);
    }
    void bad(Line &b, int n, bool native)
    {
        if (!n) return;
        std::vector<int64_t> idx, kind;
        int how = int(1 + r.below(2));
        for (int i = 0; i < how; i++) {
            idx.push_back(int64_t(r.below(uint64_t(n))));
            kind.push_back(native || on(0.65) ? r.range(1, 10) : r.range(20, 24));
        }
        b.set("bad", idx).set("badk", kind);
    }
    int64_t fz() { static const int n[] = {20, 100, 400, 2000}; return n[r.below(4)]; }
    int64_t gap()
    {
        static const int64_t g[] = {0, 0, 0, 1000, MS, 5 * MS, 50 * MS, 300 * MS, 990 * MS, 1000 * MS, 1010 * MS};
        return g[r.below(11)];
    }
    // nothing to be heard of the server for long
    int64_t quiet() { static const int64_t g[] = {7, 12, 31, 65, 130, 310, 700}; return g[r.below(7)] * SEC; }
    int64_t latency() { static const int64_t g[] = {0, 1000, MS, MS, 10 * MS, 100 * MS, 1000 * MS}; return g[r.below(7)]; }

    int addCall(int client, int th = 0)
    {
        C &c = clients[size_t(client - 1)];
        bool blocking;
        std::string kind = on(k.pAsync) ? "async" : on(k.pCb) ? "cb" : "sync";
        if (js && !th && !c.home && on(0.4)) kind = on(0.6) ? "js" : "jsret";
        if (c.home && !th) { if (kind == "sync") kind = "async"; if (on(0.3)) th = 1000; }
        blocking = kind == "sync";
        Line &l = op(kind.c_str());
        int id = int(l.num("id"));
        std::string m = on(0.7) ? "unary" : "other";
        int64_t uid = nextUid++;
        int asz = size();
        if (asz == 0) { if (emptyArgUsed) asz = 1; else { emptyArgUsed = true; uid = 0; } }
        l.set("client", client).set("m", m).set("uid", uid).set("asz", asz);
        if (th) l.set("th", th);
        if (blocking && on(0.03)) l.set("nullret", 1);
        if (on(0.1)) l.set("keep", 0);
        callOps.push_back(id);
        if (kind == "async") asyncOps.push_back(id);
        if (kind[0] == 'j') jsOps.push_back(id);
        opClient[id] = client;
        Line b;
        b.kind = "beh";
        b.set("uid", uid).set("m", m);
        int64_t lat = latency();
        if (on(0.06)) lat = r.range(5900, 6100) * MS;
        if (c.native && !(blocking && k.pAttach > 0) && on(k.pQuiet)) lat = quiet();
        b.set("lat", lat).set("salt", int64_t(r.below(1000)));
        double x = double(r.below(1000)) / 1000;
        bool nativeMaybe = c.native || k.pAttach > 0;
        if (x < k.pNever && !(blocking && nativeMaybe)) {
            if (on(0.3)) { b.set("sizes", int64_t(size())); cutting(b); }     // an answer that never ends
            b.set("end", "open");
        } else if (x < k.pNever + k.pStatus) {
            if (on(0.3)) { b.set("sizes", int64_t(size())); cutting(b); }     // data, then failure
            ending(b, c.native, false);
            b.set("endgap", gap());
        } else {
            bool none = on(0.03);                                               // a reply without a message
            if (!none) {
                b.set("sizes", int64_t(size()));
                cutting(b);
                shapes(b, 1);
            }
            b.set("end", "ok").set("endgap", on(0.7) ? 0 : gap());
            if (!none && on(k.pBad)) bad(b, 1, c.native);
        }
        p.lines.push_back(b);
        return id;
    }
    Line &line(int id) { for (auto &l : p.lines) if (l.kind == "op" && l.num("id") == id) return l; static Line none; return none; }

    // what the server does on each connection of a subscription
    void behaviours(int64_t uid, const std::string &m, bool native)
    {
        if (on(k.pOutage)) {
            // a long outage: the same few failures over and over
            int n = int(on(0.1) ? r.range(20, 70) : r.range(6, 20));
            Line e1, e2;
            ending(e1, native, true);
            ending(e2, native, true);
            for (int a = 0; a < n; a++) {
                Line b;
                b.kind = "beh";
                b.set("uid", uid).set("m", m).set("att", a).set("lat", on(0.7) ? MS : latency()).set("salt", int64_t(r.below(1000)));
                if (on(0.25)) b.set("sizes", int64_t(size()));
                cutting(b);
                Line &e = on(0.85) ? e1 : e2;
                b.set("end", e.get("end"));
                if (e.has("endarg")) b.set("endarg", e.num("endarg")).set("endmsg", e.get("endmsg"));
                b.set("endgap", on(0.8) ? 0 : gap());
                p.lines.push_back(b);
            }
        }
        int first = 0;
        for (auto &l : p.lines) if (l.kind == "beh" && l.num("uid") == uid && l.get("m") == m) first = std::max(first, int(l.num("att", -1)) + 1);
        int n = int(1 + r.below(uint64_t(k.attempts)));
        int always = on(0.06) ? int(1 + r.below(3)) : 0;
        for (int a = 0; a < n; a++) {
            Line b;
            b.kind = "beh";
            b.set("uid", uid).set("m", m).set("att", first + a).set("lat", latency()).set("salt", int64_t(r.below(1000)));
            int msgs = int(r.below(uint64_t(k.msgs) + 1));
            std::vector<int64_t> sizes, gaps;
            for (int i = 0; i < msgs; i++) { sizes.push_back(size()); gaps.push_back(gap()); }
            if (msgs && on(k.pQuiet)) gaps[r.below(uint64_t(msgs))] = quiet();
            if (msgs) { b.set("sizes", sizes).set("gaps", gaps); }
            cutting(b);
            shapes(b, size_t(msgs));
            if (always) b.set("const", always);
            else if (msgs > 1 && on(0.12)) b.set("same", int64_t(1 + r.below(uint64_t(1) << std::min(msgs, 40))));
            if (on(k.pBurst)) { static const int n[] = {20, 70, 150, 600, 1100}; b.set("burst", n[r.below(5)]).set("cut", on(0.7) ? 1 : int64_t(r.below(4))); }
            if (on(k.pBad)) bad(b, msgs, native);
            double x = double(r.below(1000)) / 1000;
            if (x < k.pBreak) ending(b, native, true);
            else if (x < k.pBreak + k.pComplete) b.set("end", "ok");
            else b.set("end", "open");
            if (b.get("end") != "ok" && on(k.pBigTail)) b.set("tail", r.range(1, 40));
            b.set("endgap", on(k.pQuiet / 2) ? quiet() : gap());
            p.lines.push_back(b);
        }
    }
    size_t addKey(int client)
    {
        C &c = clients[size_t(client - 1)];
        K key;
        key.client = client;
        key.m = on(0.6) ? "watch" : "feed";
        key.uid = nextUid++;
        key.asz = on(0.1) ? 1 : on(0.2) ? 3 : on(0.3) ? 8 : 2;
        key.native = c.native;
        // subscriptions that differ in one thing only
        if (!keys.empty() && on(0.4)) {
            K &o = keys[r.below(keys.size())];
            if (o.client == client && o.asz && on(0.6)) {
                std::string m = o.m == "watch" ? "feed" : "watch";
                bool taken = false;
                for (auto &x : keys) if (x.uid == o.uid && x.m == m) taken = true;
                if (!taken) { key.m = m; key.uid = o.uid; key.asz = o.asz; }
            }
        }
        if (twin >= 0 && keys[size_t(twin)].client == client && on(0.7)) {
            K &o = keys[size_t(twin)];
            key.m = o.m; key.asz = o.asz; key.uid = o.uid + 1;
            twin = -1;
        } else if (key.uid == nextUid - 1 && key.uid > 1 && on(0.12)) {
            if (key.uid & 1) key.uid = nextUid++;
            nextUid++;
            key.asz = int(10 + r.below(2));
            twin = int(keys.size());
        } else if (key.uid == nextUid - 1 && !emptyArgUsed && on(0.1)) { emptyArgUsed = true; key.uid = 0; key.asz = 0; }
        keys.push_back(key);
        behaviours(key.uid, key.m, c.native);
        return keys.size() - 1;
    }
    int addSub(size_t ki, int th = 0)
    {
        K &key = keys[ki];
        Line &l = op("sub");
        int id = int(l.num("id"));
        l.set("client", key.client).set("m", key.m).set("uid", key.uid).set("asz", key.asz);
        if (clients[size_t(key.client - 1)].home && !th && on(0.3)) th = 1000;
        if (th) l.set("th", th);
        if (on(0.35)) l.set("ret", 1);
        if (on(0.1)) l.set("keep", 0);
        key.ops.push_back(id);
        if (key.ops.size() > 1) key.multi = true;
        subOps.push_back(id);
        opClient[id] = key.client;
        opKey[id] = ki;
        return id;
    }
    // a point inside a handler
    std::string handlerPoint(bool blocking, int client)
    {
        std::vector<std::string> c;
        for (int s : subOps) {
            if (blocking && keys[opKey[s]].multi) continue;
            if (clients[size_t(opClient[s] - 1)].home) continue;
            c.push_back(std::to_string(s) + ":m" + std::to_string(1 + r.below(4)));
            c.push_back(std::to_string(s) + ":m1");
            c.push_back(std::to_string(s) + ":e1");
            c.push_back(std::to_string(s) + ":f1");
        }
        for (int s : jsOps) c.push_back(std::to_string(s) + ":d");
        for (int s : asyncOps) if (line(s).num("th") == 0 && !clients[size_t(opClient[s] - 1)].home) c.push_back(std::to_string(s) + ":d");
        (void)client;
        if (c.empty()) return "";
        return c[r.below(c.size())];
    }
    void place(int id, bool handlerOk, bool blocking, int client)
    {
        if (line(id).num("th")) { line(id).set("t", when()); return; }
        if (client > 0 && clients[size_t(client - 1)].home) handlerOk = false;
        if (handlerOk && on(k.pHandler)) {
            std::string h = handlerPoint(blocking, client);
            if (!h.empty() && std::to_string(id) != h.substr(0, h.find(':'))) {
                line(id).set("on", h);
                return;
            }
        }
        int64_t t = when();
        line(id).set("t", t);
        hot.push_back(t);
        if (hot.size() < 12 && on(0.5)) hot.push_back(t + SEC);
    }
    void threads()
    {
        // operations from other threads; such clients are neither re-attached nor destroyed
        int nth = int(1 + r.below(3));
        for (auto &c : clients) if (c.chan >= 0 && on(0.7)) c.threads = true;
        std::vector<int> ids;
        for (auto &c : clients) if (c.threads) ids.push_back(c.id);
        if (ids.empty()) return;
        int n = int(1 + r.below(on(0.3) ? 12 : 6));
        for (int i = 0; i < n; i++) {
            int cl = ids[r.below(ids.size())], th = int(1 + r.below(uint64_t(nth)));
            if (on(0.55) || !k.subs) { int id = addCall(cl, th); place(id, false, false, cl); }
            else {
                std::vector<size_t> mine;
                for (size_t j = 0; j < keys.size(); j++) if (keys[j].client == cl) mine.push_back(j);
                size_t ki = !mine.empty() && on(0.5) ? mine[r.below(mine.size())] : addKey(cl);
                int id = addSub(ki, th);
                place(id, false, false, cl);
                if (on(0.35)) {
                    // joins a stream at the moment at which something happens to it
                    for (int s : subOps) {
                        if (s == id || opKey[s] != ki || !line(s).has("t")) continue;
                        int64_t mt = moment(s);
                        if (mt >= 0) { line(id).set("t", mt); if (on(0.7)) line(id).set("fz", fz()); break; }
                    }
                }
                if (on(0.4)) { Line &a = op("abort"); a.set("ref", id).set("th", th); int aid = int(a.num("id")); int64_t mt = on(0.4) ? moment(id) : -1; line(aid).set("t", mt >= 0 ? mt : line(id).num("t") + r.range(0, 1500) * MS); if (on(0.4)) line(aid).set("fz", fz()); line(id).set("keep", 1); }
            }
        }
        if (on(0.3)) for (auto &l : p.lines) if (l.kind == "op" && l.num("th") && on(0.5)) l.set("fz", fz());
        if (on(k.pTogether)) {
            // all at once: what one of them does on its own thread falls in the middle of what another does
            int64_t t0 = when(), f = on(0.7) ? fz() : 0;
            bool own = on(0.5);
            for (auto &l : p.lines) {
                if (l.kind != "op" || l.has("ref")) continue;
                if (!l.num("th")) {
                    if (own && (l.get("k") == "sub" || l.get("k") == "async") && l.has("t") && on(0.5)) l.set("t", t0);
                    continue;
                }
                l.set("t", t0);
                if (f) l.set("fz", f);
            }
        }
        if (k.pBad == 0 && on(k.pRead)) {
            std::vector<int> refs;
            for (int o : subOps) refs.push_back(o);
            for (int o : asyncOps) refs.push_back(o);
            for (int i = int(1 + r.below(4)); i > 0 && !refs.empty(); i--) {
                int ref = refs[r.below(refs.size())];
                if (!clients[size_t(opClient[ref] - 1)].threads) continue;
                Line &a = op("read");
                static const int64_t g[] = {0, 1000, 100000, MS, 20 * MS};
                a.set("ref", ref).set("th", int64_t(1 + r.below(uint64_t(nth)))).set("t", line(ref).has("t") ? line(ref).num("t") + (on(0.5) ? 0 : r.range(0, 50) * MS) : when());
                a.set("n", r.range(2, 40)).set("gap", g[r.below(5)]);
                if (on(0.6)) { a.set("follow", 1); if (on(0.7)) a.set("fz", fz()); }
                line(ref).set("keep", 1);
            }
        }
        for (int i = int(r.below(3)); i > 0 && !asyncOps.empty(); i--) {
            int ref = asyncOps[r.below(asyncOps.size())];
            if (!clients[size_t(opClient[ref] - 1)].threads) continue;
            Line &a = op("abortcall");
            int id = int(a.num("id"));
            a.set("ref", ref).set("th", int64_t(1 + r.below(uint64_t(nth)))).set("t", when());
            if (on(0.5)) { int64_t mt = moment(ref); if (mt >= 0) line(id).set("t", mt); if (on(0.5)) line(id).set("fz", fz()); }
            if (on(0.2)) line(id).set("again", 1);
            line(ref).set("keep", 1);
        }
    }
    // some of the operations inside handlers come while the message is written to its return object
    void takeover()
    {
        for (auto &l : p.lines) {
            if (l.kind != "op" || !l.has("on")) continue;
            const std::string kd = l.get("k"), at = l.get("on");
            size_t c = at.find(":m");
            if (c == std::string::npos || !on(0.3)) continue;
            Line &s = line(std::atoi(at.c_str()));
            if (s.get("k") != "sub" || !s.num("ret") || s.num("nullret") || s.num("th")) continue;
            bool other = kd == "sub" && (l.num("client") != s.num("client") || l.get("m") != s.get("m") || l.num("uid") != s.num("uid"));
            if (kd == "abort" || kd == "abortcall" || kd == "async" || kd == "cb" || kd == "drop" || other) l.set("on", at.substr(0, c) + ":p" + at.substr(c + 2));
        }
    }
    // what a client with a thread of its own does coincides with what the others do
    void lockstep()
    {
        bool any = false;
        for (auto &c : clients) any = any || c.home;
        if (!any || !on(0.7)) return;
        std::vector<int> theirs, ours;
        for (auto &l : p.lines) {
            if (l.kind != "op" || l.has("ref") || !l.has("client") || !l.has("uid")) continue;
            const std::string kd = l.get("k");
            if (kd != "sub" && kd != "async" && kd != "cb") continue;
            int c = int(l.num("client"));
            if (c < 1 || size_t(c) > clients.size()) continue;
            C &cl = clients[size_t(c - 1)];
            if (cl.chan < 0 || (l.num("th") && l.num("th") != 1000)) continue;
            if (cl.home) theirs.push_back(int(l.num("id"))); else if (l.has("t")) ours.push_back(int(l.num("id")));
        }
        if (ours.empty()) return;
        // streams and calls that are served like those of another client
        for (int i = int(r.below(4)); i > 0; i--) {
            int with = ours[r.below(ours.size())];
            C &home = clients.back();
            if (!home.home || clients[size_t(line(with).num("client") - 1)].native != home.native) continue;
            bool stream = line(with).get("k") == "sub";
            if (stream && !k.subs) continue;
            int id = stream ? addSub(addKey(home.id)) : addCall(home.id, 0);
            const std::string kd = line(id).get("k"), m = line(id).get("m"), wm = line(with).get("m");
            if (!stream && m != wm) continue;       // an operation of its own
            int64_t uid = line(id).num("uid"), wuid = line(with).num("uid");
            line(id).set("t", line(with).num("t")).set("th", 0);
            line(id).set("fz", fz());
            if (uid == wuid) continue;
            p.lines.erase(std::remove_if(p.lines.begin(), p.lines.end(), [&](const Line &l) { return l.kind == "beh" && l.num("uid") == uid && l.get("m") == m; }), p.lines.end());
            std::vector<Line> copy;
            for (auto &l : p.lines) if (l.kind == "beh" && l.num("uid") == wuid && l.get("m") == wm) { copy.push_back(l); copy.back().set("uid", uid).set("m", m); }
            p.lines.insert(p.lines.end(), copy.begin(), copy.end());
        }
        for (int id : theirs) {
            if (!on(0.8)) continue;
            int with = ours[r.below(ours.size())];
            int64_t t = line(with).num("t");
            line(id).set("t", t);
            line(id).set("th", 0);
            if (on(0.7)) line(id).set("fz", fz());
            if (on(0.4)) line(with).set("fz", fz());
            Line *a = nullptr, *b = nullptr;
            for (auto &l : p.lines) {
                if (l.kind != "beh" || l.num("att", 0) != 0) continue;
                if (!a && l.num("uid") == line(id).num("uid") && l.get("m") == line(id).get("m")) a = &l;
                if (!b && l.num("uid") == line(with).num("uid") && l.get("m") == line(with).get("m")) b = &l;
            }
            if (!a || !b || !on(0.8)) continue;
            a->set("lat", b->num("lat"));
            a->set("jit", 0).set("cut", 0);
            b->set("jit", 0).set("cut", 0);
            if (b->has("gaps") && a->has("gaps")) {
                std::vector<int64_t> g = a->list("gaps"), h = b->list("gaps");
                for (size_t i = 0; i < g.size() && i < h.size(); i++) g[i] = h[i];
                a->set("gaps", g);
            }
        }
        for (auto &l : p.lines) if (l.kind == "world" && on(0.7)) l.set("afz", on(0.5) ? fz() : 60);
    }
    // some operations come right before or right after something from the server is handed over
    void adjacent()
    {
        if (!on(0.5)) return;
        std::vector<std::pair<int64_t, std::string>> all;
        for (auto &l : p.lines) if (l.kind == "beh") all.push_back({l.num("uid"), l.get("m")});
        if (all.empty()) return;
        for (auto &l : p.lines) {
            if (l.kind != "op" || !l.has("t") || l.has("on") || (l.num("th") && l.num("th") != 1000)) continue;
            const std::string kd = l.get("k");
            bool ab = kd == "abort" || kd == "abortcall";
            if (!on(ab ? 3 * k.pArr : k.pArr)) continue;
            auto ref = all[r.below(all.size())];
            Line &o = line(int(l.num("ref", -1)));
            if (o.has("uid") && on(0.8)) ref = {o.num("uid"), o.get("m")};
            bool end = on(0.5);
            int64_t n = 1 + int64_t(r.below(end ? 3 : 5));
            l.set("arrm", ref.second).set("arr", std::to_string(ref.first) + "," + std::to_string(end ? 1 : 0) + "," + std::to_string(n) + "," + std::to_string(int(on(0.7))));
            l.set("t", l.num("t") + r.range(1, 1500) * MS);
        }
    }
    void run()
    {
        // swarm: every feature of the profile is on or off for the whole run
        auto maybe = [&](double &x) { if (!on(0.65)) x = 0; };
        maybe(k.pAbort); maybe(k.pAbortCall); maybe(k.pAttach); maybe(k.pDestroy); maybe(k.pBad); maybe(k.pHandler); maybe(k.pShare); maybe(k.pSlow);
        if (on(k.pMany)) { k.subs *= 3; k.calls *= 3; k.msgs = std::min(k.msgs, 3); k.attempts = std::min(k.attempts, 3); k.clients = int(1 + r.below(2)); }
        sched();
        world();
        int nc = k.calls ? int(r.below(uint64_t(k.calls) + 1)) : 0, ns = k.subs ? int(r.below(uint64_t(k.subs) + 1)) : 0;
        if (!nc && !ns) { if (k.subs >= k.calls) ns = 1; else nc = 1; }
        for (int i = 0; i < ns; i++) {
            int cl = int(1 + r.below(clients.size()));
            std::vector<size_t> mine;
            for (size_t j = 0; j < keys.size(); j++) if (keys[j].client == cl) mine.push_back(j);
            size_t ki = !mine.empty() && on(k.pShare) ? mine[r.below(mine.size())] : addKey(cl);
            addSub(ki);
        }
        for (int i = 0; i < nc; i++) addCall(int(1 + r.below(clients.size())));
        std::vector<int> subsNow = subOps, callsNow = callOps;
        for (int id : subsNow) place(id, id != subsNow[0], false, opClient[id]);
        for (int id : callsNow) place(id, true, line(id).get("k") == "sync", opClient[id]);
        if (on(k.pThreads)) threads();
        auto aborts = [&](const std::vector<int> &refs, const char *kind, double pr) {
            for (int ref : refs) {
                if (line(ref).num("th") || !on(pr)) continue;
                Line &a = op(kind);
                int id = int(a.num("id"));
                a.set("ref", ref);
                line(ref).set("keep", 1);
                if (on(0.25)) line(id).set("again", 1);
                place(id, true, false, opClient[ref]);
                if (line(id).has("on") && on(0.4)) {
                    // from its own handler
                    std::string h = std::to_string(ref) + (std::string(kind) == "abort" ? (on(0.6) ? ":m" + std::to_string(1 + r.below(3)) : on(0.6) ? ":e1" : ":f1") : ":d");
                    line(id).set("on", h);
                }
                int64_t mt = !line(id).has("on") && on(0.3) ? moment(ref) : -1;
                if (mt >= 0) line(id).set("t", mt);
                else if (!line(id).has("on") && line(ref).has("t") && on(0.5)) line(id).set("t", line(ref).num("t") + (on(0.3) ? 0 : gap()));
            }
        };
        aborts(subsNow, "abort", k.pAbort);
        aborts(asyncOps, "abortcall", k.pAbortCall);
        // subscribing again later
        for (int i = int(r.below(3)); i > 0 && !keys.empty(); i--) {
            size_t ki = r.below(keys.size());
            if (!on(k.pShare * 2)) continue;
            bool blockedHandlers = false;
            for (auto &l : p.lines) if (l.kind == "op" && l.get("k") == "sync" && l.has("on")) for (int o : keys[ki].ops) if (l.get("on").compare(0, std::to_string(o).size() + 1, std::to_string(o) + ":") == 0) blockedHandlers = true;
            if (blockedHandlers && !keys[ki].multi) continue;
            int id = addSub(ki);
            place(id, true, false, keys[ki].client);
            if (on(0.4) && !clients[size_t(keys[ki].client - 1)].home && !line(id).num("th")) {
                line(id).kv.erase(std::remove_if(line(id).kv.begin(), line(id).kv.end(), [](std::pair<std::string, std::string> &x) { return x.first == "t"; }), line(id).kv.end());
                line(id).set("on", std::to_string(keys[ki].ops[0]) + (on(0.5) ? ":f1" : on(0.5) ? ":e1" : ":m1"));
            }
        }
        for (auto &c : clients) {
            if (c.threads) continue;
            if (on(k.pAttach)) {
                for (int i = int(1 + r.below(2)); i > 0; i--) {
                    Line &a = op(on(0.12) ? "attachbad" : "attach");
                    int id = int(a.num("id"));
                    a.set("client", c.id).set("chan", chans[r.below(chans.size())].id);
                    place(id, true, false, c.id);
                    if (line(id).has("on")) handlerAttach = true;
                }
            }
            if (on(k.pDestroy)) {
                Line &a = op("destroy");
                int id = int(a.num("id"));
                a.set("client", c.id).set("drop", int64_t(r.below(2))).set("withchan", int64_t(r.below(2)));
                place(id, clients.size() > 1 && on(0.5), false, -1);
                if (line(id).has("t") && on(0.3)) line(id).set("t", line(id).num("t") + SEC);
            }
        }
        if (k.pAttach > 0 && !handlerAttach && on(0.3)) { Line &a = op("dropchan"); a.set("chan", chans[r.below(chans.size())].id).set("t", when()); }
        for (auto &c : chans) if (!c.native && on(0.2)) { Line &a = op("cred"); int id = int(a.num("id")); a.set("chan", c.id).set("val", "tok" + std::to_string(id)); place(id, true, false, -1); }
        if (on(k.pSlow)) { Line &a = op("slow"); int id = int(a.num("id")); a.set("ns", r.range(1, 400) * MS); place(id, true, false, -1); }
        if (on(0.03)) {
            size_t ki = addKey(clients[r.below(clients.size())].id);
            if (!clients[size_t(keys[ki].client - 1)].threads) { int id = addSub(ki); line(id).set("nullret", 1).set("ret", 0); place(id, true, false, keys[ki].client); }
        }
        for (int s : subsNow) if (line(s).num("ret") && on(0.06)) { Line &a = op("dropret"); int id = int(a.num("id")); a.set("ref", s); place(id, true, false, opClient[s]); }
        {
            std::vector<std::pair<int, int64_t>> rets;
            for (auto &l : p.lines) {
                if (l.kind != "op" || (l.get("k") != "sync" && l.get("k") != "jsret") || l.num("th") || l.num("nullret") || !on(l.get("k") == "sync" ? 0.06 : 0.3)) continue;
                rets.push_back({int(l.num("id")), l.has("t") ? l.num("t") : -1});
            }
            for (auto &x : rets) {
                Line &a = op("dropret");
                int id = int(a.num("id"));
                a.set("ref", x.first);
                place(id, false, false, -1);
                if (x.second >= 0 && on(0.7)) line(id).set("t", x.second + r.range(0, on(0.5) ? 40 : 400) * MS);
            }
        }
        if (on(0.15) && !subOps.empty()) { Line &a = op("drop"); int id = int(a.num("id")); int s = subOps[r.below(subOps.size())]; a.set("ref", s); place(id, true, false, opClient[s]); }
        // blocking calls inside handlers of streams that got a second subscriber meanwhile
        for (auto &l : p.lines) {
            if (l.kind != "op" || l.get("k") != "sync" || !l.has("on")) continue;
            auto s = opKey.find(atoi(l.get("on").c_str()));
            if (s == opKey.end() || !keys[s->second].multi) continue;
            l.kv.erase(std::remove_if(l.kv.begin(), l.kv.end(), [](std::pair<std::string, std::string> &x) { return x.first == "on"; }), l.kv.end());
            l.set("t", when());
        }
        takeover();
        lockstep();
        adjacent();
    }
};

Knobs knobsOf(const std::string &pr)
{
    Knobs k;
    k.calls = 3; k.subs = 2;
    if (pr == "C01") { k.calls = 7; k.pJs = 0.2; k.subs = 1; k.pNever = 0.25; k.pStatus = 0.25; k.pNoChan = 0.12; k.pHandler = 0.4; k.pAbortCall = 0.15; k.pThreads = 0.15; }
    if (pr == "C02") { k.calls = 8; k.pJs = 0.2; k.subs = 1; k.pNever = 0.03; k.pStatus = 0.4; k.clients = 3; k.pThreads = 0.1; }
    if (pr == "C03") { k.pBurst = 0.05; k.calls = 2; k.subs = 3; k.msgs = 9; k.pBreak = 0.2; k.pComplete = 0.3; k.pHandler = 0.5; k.pAsync = 0.3; k.attempts = 2; k.pAbort = 0.05; }
    if (pr == "C04") { k.calls = 1; k.subs = 4; k.pBreak = 0.35; k.pComplete = 0.5; k.msgs = 4; k.pShare = 0.3; k.pHandler = 0.4; k.attempts = 4; }
    if (pr == "C05") { k.calls = 1; k.subs = 3; k.pBreak = 0.9; k.pComplete = 0.05; k.msgs = 4; k.attempts = 7; k.pOutage = 0.15; k.pAbort = 0.1; k.pBigTail = 0.4; k.pHandler = 0.25; }
    if (pr == "C06") { k.calls = 4; k.subs = 4; k.pAbort = 0.6; k.pAbortCall = 0.6; k.pHandler = 0.4; k.pShare = 0.3; k.pAsync = 0.8; k.pBreak = 0.6; k.attempts = 4; k.pThreads = 0.25; k.pNever = 0.2; }
    if (pr == "C07") { k.calls = 1; k.subs = 6; k.pShare = 0.6; k.pHandler = 0.4; k.pAbort = 0.15; k.pBreak = 0.4; k.pThreads = 0.15; }
    if (pr == "C08") { k.calls = 3; k.subs = 2; k.pThreads = 1; k.pRead = 0.5; k.pThreadFocus = 0.7; k.pTogether = 0.4; k.pNoChan = 0; k.pAbort = 0.1; k.pCb = 0.35; k.pHome = 0.4; k.pAway = 0.25; }
    if (pr == "C09") { k.calls = 4; k.subs = 3; k.pDestroy = 0.6; k.clients = 3; k.chans = 2; k.pAbort = 0.1; k.pNever = 0.3; k.pAsync = 0.8; k.pNative = 0.45; k.attempts = 4; }
    if (pr == "C10") { k.calls = 3; k.subs = 3; k.pBad = 0.7; k.msgs = 6; k.pBreak = 0.3; k.clients = 2; }
    if (pr == "C12") { k.calls = 3; k.subs = 4; k.pAttach = 0.8; k.chans = 3; k.pHandler = 0.35; k.pBreak = 0.55; k.attempts = 5; k.pAbort = 0.1; k.pShare = 0.25; k.pNoChan = 0.1; }
    if (pr == "C13") { k.calls = 4; k.subs = 3; k.pBreak = 0.7; k.attempts = 5; k.pAttach = 0.2; k.chans = 3; k.clients = 3; k.pThreads = 0.1; k.pAbort = 0.15; k.pHome = 0.2; }
    if (pr == "C16") { k.calls = 5; k.subs = 3; k.pBreak = 0.6; k.pStatus = 0.55; k.pBad = 0.15; k.clients = 3; k.pAbortCall = 0.2; k.pNoChan = 0.12; k.pAbort = 0.1; k.attempts = 4; k.pThreads = 0.25; }
    if (pr == "C17") { k.calls = 6; k.subs = 4; k.pCb = 0.5; k.pJs = 0.25; k.pAbort = 0.3; k.pAbortCall = 0.3; k.pAttach = 0.2; k.pBreak = 0.6; k.attempts = 6; k.pOutage = 0.15; k.pStatus = 0.4; k.pShare = 0.25; k.pThreads = 0.15; k.pMany = 0.12; k.pNative = 0.45; k.pNoChan = 0.05; }
    return k;
}
}

Plan makePlan(const std::string &profile, uint64_t seed)
{
    if (profile == "C14") return makeQmlPlan(profile, seed);
    if (profile == "C11") return makeCodecPlan(profile, seed);
    if (profile == "C15") return makePluginPlan(profile, seed);
    G g(mix(seed, fnv(profile.data(), profile.size())));
    g.p.scenario = "grpc";
    g.p.profile = profile;
    g.p.seed = seed;
    g.k = knobsOf(profile);
    // now and then also what the profile leaves out
    auto also = [&](double &knob, double v) { if (knob == 0 && g.on(0.06)) knob = v; };
    also(g.k.pAbort, 0.3);
    also(g.k.pAbortCall, 0.3);
    also(g.k.pAttach, 0.4);
    also(g.k.pDestroy, 0.4);
    also(g.k.pBad, 0.3);
    g.run();
    return g.p;
}
Plan makeQmlPlan(const std::string &profile, uint64_t seed)
{
    G g(mix(seed, fnv(profile.data(), profile.size())));
    g.p.scenario = "grpc";
    g.p.profile = profile;
    g.p.seed = seed;
    Knobs k;
    k.calls = 2; k.subs = 1; k.pAsync = 1; k.pCb = 0; k.clients = 2; k.chans = 2; k.attempts = 4; k.msgs = 5; k.pNoChan = 0.08;
    k.pBreak = 0.45; k.pComplete = 0.35; k.pSlow = 0; k.pShare = 0; k.pHandler = 0.25;
    g.k = k;
    Rng &r = g.r;
    g.quick = true;
    g.sched();
    g.world();
    for (int i = int(r.below(3)); i > 0; i--) { int cl = g.clients[r.below(g.clients.size())].id; int id = g.addCall(cl); g.place(id, false, false, cl); }
    if (g.on(0.3)) { int cl = g.clients[r.below(g.clients.size())].id; size_t ki = g.addKey(cl); int id = g.addSub(ki); g.place(id, false, false, cl); }
    int n = int(1 + r.below(3));
    for (int e = 1; e <= n; e++) {
        Line q;
        q.kind = "qml";
        q.set("id", e);
        g.p.lines.push_back(q);
        std::vector<int64_t> args;
        for (int i = int(1 + r.below(2)); i > 0; i--) {
            int64_t u = g.nextUid++;
            args.push_back(u);
            for (const char *m : {"watch", "feed"}) if (m[0] == 'w' || g.on(0.5)) g.behaviours(u, m, g.clients[0].native);
        }
        auto val = [&](const std::string &prop) -> std::string {
            if (prop == "enabled") return g.on(0.6) ? "1" : "0";
            if (prop == "client") return std::to_string(g.on(0.1) ? -1 : g.clients[r.below(g.clients.size())].id);
            if (prop == "method") { static const char *m[] = {"watch", "watch", "watch", "feed", "feed", "Watch", "-", "unary", "nope"}; return m[r.below(9)]; }
            return std::to_string(g.on(0.06) ? -1 : g.on(0.04) ? -2 : args[r.below(args.size())]);
        };
        std::vector<std::string> props = {"enabled", "client", "method", "arg"};
        for (size_t i = 3; i > 0; i--) std::swap(props[i], props[r.below(i + 1)]);
        int64_t t = g.on(0.6) ? 0 : g.when();
        for (auto &p : props) {
            Line &l = g.op("qset");
            l.set("el", e).set("prop", p).set("val", p == "enabled" ? (g.on(0.92) ? "1" : "0") : val(p)).set("t", t);
            if (g.on(0.2)) t = g.when();
        }
        g.hot.push_back(t);
        g.hot.push_back(t + 1000 * MS);
        bool restart = g.on(0.3);
        if (restart)
            for (int i = 1; i <= int(1 + r.below(3)); i++) { Line &l = g.op("qset"); l.set("el", e).set("prop", "enabled").set("val", "1").set("on", std::to_string(200000 + e) + ":off" + std::to_string(i)); }
        for (int i = int(r.below(6)); i > 0; i--) {
            static const char *ps[] = {"enabled", "enabled", "enabled", "client", "method", "arg", "arg"};
            std::string p = ps[r.below(7)];
            Line &l = g.op("qset");
            int id = int(l.num("id"));
            l.set("el", e).set("prop", p).set("val", val(p));
            if (g.on(0.3)) {
                static const char *w[] = {":m1", ":m2", ":m3", ":e1", ":e2", ":off1", ":on2", ":p1", ":p2", ":p3"};
                g.line(id).set("on", std::to_string(200000 + int(1 + r.below(uint64_t(n)))) + w[r.below(10)]);
            } else { int64_t x = g.when(); g.line(id).set("t", x); if (g.on(0.5)) g.hot.push_back(x); }
        }
        if (g.on(0.2)) { Line &l = g.op("qargdel"); int id = int(l.num("id")); l.set("val", args[r.below(args.size())]); g.line(id).set("t", g.when()); }
        if (g.on(0.25)) { Line &l = g.op("qdel"); int id = int(l.num("id")); l.set("el", e); g.line(id).set("t", g.when()); }
    }
    for (auto &c : g.clients) {
        if (g.on(0.2)) { Line &a = g.op("destroy"); int id = int(a.num("id")); a.set("client", c.id).set("drop", int64_t(r.below(2))).set("withchan", int64_t(r.below(2))); g.line(id).set("t", g.when()); }
        if (g.on(0.15)) { Line &a = g.op("attach"); int id = int(a.num("id")); a.set("client", c.id).set("chan", g.chans[r.below(g.chans.size())].id); g.line(id).set("t", g.when()); }
    }
    g.adjacent();
    return g.p;
}
