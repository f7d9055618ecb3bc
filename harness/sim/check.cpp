// The oracle of the gRPC scenarios: the recorded history against an executable reference model of what the
// application asked for, what the servers did and what was handed to the application.
#include "world.h"
#include "rng.h"
#include <QNetworkReply>
#include <algorithm>

namespace {
const int64_t MS = 1000000LL;
int64_t S;               // slack: scheduling delays that are not the library's fault
int64_t finalT = INT64_MAX;
size_t finalIdx = SIZE_MAX;

struct Frame { std::string payload; size_t end; bool exact; uint64_t digest; bool cutOff = false; };
struct ConnInfo {
    Conn *c;
    std::vector<Frame> frames;      // reference parse of everything the server sends
    size_t poisonAt = SIZE_MAX;     // offset of a frame header no client can honour
    std::vector<int64_t> frameT;    // when the last byte of each frame had arrived, -1: never
    size_t complete = 0;            // frames complete so far in the walk
    size_t postIdx = SIZE_MAX, endIdx = SIZE_MAX, cancelIdx = SIZE_MAX;
    int client = -1;
    int openWindows = 0;
    struct Inc *inc = nullptr;
    int64_t closeBy = -1;           // must be cancelled by then
    std::string closeTags, closeWhy;
};
std::vector<ConnInfo> conns;

struct Sub {
    int op = -1;
    std::set<int> cur;
    bool certain = true;            // its handlers were in place from the start
    bool fin = false;
    int errs = 0;                   // errors seen for the present break
    uint64_t lastDigest = 0;
    bool lastWild = false, afterEnd = false;
};
struct Key;
struct Inc {
    Key *key = nullptr;
    int64_t sid = 0;
    std::vector<Sub *> subs;
    ConnInfo *conn = nullptr;
    bool live = true, taking = false;   // taking: a message is being written to somebody's return object
    std::string cause;
    size_t deadIdx = SIZE_MAX;
    int64_t deadT = -1;
    enum { None, Silent, Timed } pend = None;
    int64_t due = 0;
    bool pendErr = false, pendFin = false, errObserved = false;
    std::set<int> codes;
    std::string msg;
    bool msgExact = false;
    int64_t pendT = 0;
    int aborts = 0;
    bool maybeDead = false;         // completed by the server, nobody could have told us that the client knows
};
struct Key {
    int client = -1;
    std::string method;
    int64_t uid = -1;
    std::vector<Inc *> incs;
    std::set<int> openOps;          // subscriptions begun, not returned
    Inc *cur() { return incs.empty() ? nullptr : incs.back(); }
};
std::map<std::pair<std::string, int64_t>, Key> keys;
std::map<int, Sub *> subs;
std::map<int, Inc *> incOf;
struct OpIdx { size_t begin = SIZE_MAX, end = SIZE_MAX; int64_t beginT = 0, endT = -1, sid = 0; int thread = 0; };
std::map<int, OpIdx> opIdx;
struct AttachRec { size_t first, end; int second; };
std::map<int, std::vector<AttachRec>> attachHist;   // client -> (begin, end, channel)
std::map<int, size_t> destroyIdx;
std::map<int, int> attachedNow;
std::set<int> attaching, destroying, destroyed;
struct AbortRec { size_t idx; int op, client; };
std::vector<AbortRec> abortsAt;
std::set<int> retGone;
bool anyBad = false;
std::map<uint64_t, int> digestCount;                // how often servers sent a message
size_t walkIdx = 0;

std::string opName(int op)
{
    auto i = g_ops.find(op);
    if (i == g_ops.end()) return "op " + std::to_string(op);
    return "op " + std::to_string(op) + " (" + i->second.kind + " " + i->second.method + " client " + std::to_string(i->second.client) +
           (i->second.thread ? " thread " + std::to_string(i->second.thread) : "") + ")";
}
std::string ms(int64_t t) { char b[40]; snprintf(b, sizeof b, "%.3fs", double(t) / 1e9); return b; }

void V(std::string props, int client, int op, ConnInfo *ci, const std::string &text)
{
    auto i = g_ops.find(op);
    if ((i != g_ops.end() && i->second.thread > 0) || !g_homeClients.empty()) props += " C08";
    if (anyBad && !(ci && (ci->c->badPayload || ci->c->badFrame))) props += " C10";
    // operations of one client are not to be disturbed by what happened to others before
    if (client >= 0) {
        for (auto &a : abortsAt) if (a.idx < walkIdx && a.client == client && a.op != op) { props += " C06"; break; }
        auto h = attachHist.find(client);
        if (h != attachHist.end() && h->second.size() > 1 && h->second[1].first < walkIdx) props += " C12";
    }
    if (ci && ci->c->stream && ci->c->attempt > 0) props += " C05";
    if (ci && ci->inc && ci->inc->subs.size() > 1) props += " C07";
    for (auto &d : destroyIdx) if (d.first != client && d.second < walkIdx) { props += " C09"; break; }
    violation(props, text);
}

// a message whose last field reaches beyond its end: nobody can decode it
bool runsOut(const std::string &m)
{
    size_t i = 0;
    auto var = [&](uint64_t &v) {
        v = 0;
        for (int s = 0; i < m.size() && s < 70; s += 7) { unsigned char b = static_cast<unsigned char>(m[i++]); v |= s < 64 ? uint64_t(b & 0x7f) << s : 0; if (!(b & 0x80)) return true; }
        return false;
    };
    while (i < m.size()) {
        uint64_t tag, v;
        if (!var(tag)) return true;
        size_t left = m.size() - i;
        switch (tag & 7) {
        case 0: if (!var(v)) return true; break;
        case 1: if (left < 8) return true; i += 8; break;
        case 2: if (!var(v) || v > m.size() - i) return true; i += v; break;
        case 5: if (left < 4) return true; i += 4; break;
        default: return false;
        }
    }
    return false;
}

void prepareConn(ConnInfo &ci)
{
    Conn *c = ci.c;
    if (c->badPayload || c->badFrame) anyBad = true;
    std::map<size_t, size_t> originals;   // frame start -> message index
    size_t b = 0;
    for (size_t i = 0; i < c->digests.size(); i++) { originals[b] = i; b = c->frameEnd[i]; digestCount[c->digests[i]]++; }
    const unsigned char *p = reinterpret_cast<const unsigned char *>(c->bytes.data());
    size_t off = 0, n = c->bytes.size();
    while (off + 5 <= n) {
        uint64_t len = uint64_t(p[off + 1]) << 24 | uint64_t(p[off + 2]) << 16 | uint64_t(p[off + 3]) << 8 | p[off + 4];
        if (len > 0x7fffffffULL - 16) { ci.poisonAt = off + 5; break; }
        if (off + 5 + len > n) break;
        Frame f;
        f.payload = c->bytes.substr(off + 5, size_t(len));
        f.end = off + 5 + size_t(len);
        f.exact = false;
        f.digest = 0;
        auto o = originals.find(off);
        if (o != originals.end() && !c->badMsg[o->second] && c->frameEnd[o->second] == f.end) { f.exact = true; f.digest = c->digests[o->second]; }
        if (o != originals.end() && c->badMsg[o->second] == 2 && c->frameEnd[o->second] == f.end) f.cutOff = runsOut(f.payload);
        ci.frames.push_back(f);
        off = f.end;
    }
    ci.frameT.assign(ci.frames.size(), -1);
}

bool poisoned(ConnInfo *ci, size_t arrived) { return ci->poisonAt != SIZE_MAX && arrived >= ci->poisonAt; }

// blocking calls made on the client's thread: what waits for the handler they were made in waits for them, too
std::vector<std::pair<int64_t, int64_t>> blocked;
// those made for other threads, too: objects deleted later by an outer event loop have to wait for the inner one
std::vector<std::pair<int64_t, int64_t>> nested;
int64_t late(int64_t from, int64_t to, const std::vector<std::pair<int64_t, int64_t>> &busy = blocked)
{
    int64_t d = to - from;
    for (auto &b : busy) d -= std::max<int64_t>(0, std::min(to, b.second) - std::max(from, b.first));
    return d;
}

std::set<int> rangeSet(int a, int b) { std::set<int> s; for (int i = a; i <= b; i++) s.insert(i); return s; }

std::string deathTags(const std::string &cause)
{
    if (cause == "abort") return "C06";
    if (cause == "attach") return "C12";
    if (cause == "destroy") return "C09";
    return "C04";
}

void kill(Inc *i, const std::string &cause, size_t idx, int64_t t)
{
    if (!i->live) return;
    i->live = false;
    i->cause = cause;
    i->deadIdx = idx;
    i->deadT = t;
    if (i->conn && i->conn->c && i->conn->endIdx == SIZE_MAX && i->conn->cancelIdx == SIZE_MAX) {
        i->conn->closeBy = t + S;
        i->conn->closeTags = deathTags(cause);
        i->conn->closeWhy = cause;
    }
}

// an ended stream of the same subscription whose pending reconnect may be what is happening now
std::string ghostTags(const Key &k, int64_t t)
{
    std::string r;
    for (auto i : k.incs)
        if (!i->live && i->pend != Inc::None && t < i->due + S + 200 * MS) r += " " + deathTags(i->cause);
    return r;
}

// everything complete must have been handed over before the connection's end is reported
void checkDelivered(Inc *i, Sub *s, const std::string &when, const std::string &tags)
{
    if (!i->conn || !s->certain) return;
    if (!s->cur.count(int(i->conn->complete)))
        V("C03 " + tags, i->key->client, s->op, i->conn,
          opName(s->op) + ": " + std::to_string(*s->cur.begin()) + " of " + std::to_string(i->conn->complete) + " messages received in full were delivered " + when);
    s->cur = {int(i->conn->complete)};
}

Sub *bindSub(Key &k, int op, bool certain)
{
    if (subs.count(op)) return subs[op];
    Inc *i = k.cur();
    if (!i) return nullptr;
    auto s = new Sub;
    s->op = op;
    s->certain = certain;
    subs[op] = s;
    incOf[op] = i;
    i->subs.push_back(s);
    return s;
}

bool channelsIn(int client, size_t a, size_t b, std::set<int> &out, bool reconnect = false)
{
    int cur = -1;
    for (auto &x : attachHist[client]) {
        if (x.first <= a) {
            // while the replacement is in progress (a handler it runs may block) the old channel still reconnects
            if (reconnect && x.end > a) out.insert(cur);
            cur = x.second;
        } else if (x.first <= b) out.insert(x.second);
    }
    out.insert(cur);
    return true;
}
std::string hostOf(int ch)
{
    auto i = g_chans.find(ch);
    if (i == g_chans.end()) return "?";
    return i->second.native ? i->second.target : i->second.host;
}

// ------------------------------------------------------------------------------------------- requests
void checkWire(ConnInfo &ci, size_t begin, size_t idx, const std::string &argw)
{
    Conn *c = ci.c;
    std::set<int> chs;
    channelsIn(ci.client, begin, idx, chs, c->attempt > 0);
    bool hostOk = false;
    for (int ch : chs) if (ch >= 0 && hostOf(ch) == c->host) hostOk = true;
    std::string who = "request " + std::to_string(c->id) + " (" + c->path + ", attempt " + std::to_string(c->attempt) + ")";
    if (!hostOk) V("C13 C12", ci.client, -1, &ci, who + " went to " + c->host + " which is not the channel attached to client " + std::to_string(ci.client));
    bool aux = g_auxClients.count(ci.client);
    std::string want = aux ? "/vsim.Aux/" : g_deepClients.count(ci.client) ? "/vsim.deep.Sim/" : "/vsim.Sim/";
    if (c->path.compare(0, want.size(), want) || c->path.size() <= want.size() || bool(isupper(c->path[want.size()])) != aux || c->path.find('/', want.size()) != std::string::npos) V("C13", ci.client, -1, &ci, who + ": wrong path");
    if (c->verb != "POST") V("C13", ci.client, -1, &ci, who + ": verb " + c->verb);
    if (!c->framed) V("C13", ci.client, -1, &ci, who + ": body is not one correctly framed message");
    refsim::Msg m;
    if (!m.ParseFromString(c->arg) || canon(m) != argw) V("C13 C02", ci.client, -1, &ci, who + ": the request's message is not the argument");
    if (!c->native) {
        auto h = [&](const char *k) { auto i = c->headers.find(k); return i == c->headers.end() ? std::string("<missing>") : i->second; };
        if (h("content-type").compare(0, 16, "application/grpc")) V("C13", ci.client, -1, &ci, who + ": content-type " + h("content-type"));
        if (h("te") != "trailers") V("C13", ci.client, -1, &ci, who + ": te header " + h("te"));
        if (h(":http2") != "1") V("C13", ci.client, -1, &ci, who + ": not requested over HTTP/2");
        for (int ch : chs) {
            if (ch < 0 || hostOf(ch) != c->host) continue;
            const ChanInfo &x = g_chans[ch];
            if (x.tokens && h("sim-token") != c->expectToken) V("C13", ci.client, -1, &ci, who + ": credential '" + h("sim-token") + "' instead of the current '" + c->expectToken + "'");
            if (x.tokens && h("sim-const") != "c\xc3\xb6nst") V("C13", ci.client, -1, &ci, who + ": credential sim-const '" + h("sim-const") + "'");
            if (!x.tokens && (h("sim-token") != "<missing>" || h("sim-const") != "<missing>")) V("C13", ci.client, -1, &ci, who + ": credentials of another channel");
            for (const char *n : {"user-name", "user-password", "x-sim-user", "x-sim-password"}) {
                auto e = x.headers.find(n);
                std::string w = e == x.headers.end() ? "<missing>" : e->second, got = h(n);
                // Qt drops a header whose value is empty
                if (got != w && !(w.empty() && got == "<missing>")) V("C13", ci.client, -1, &ci, who + ": credential " + n + " '" + got + "' instead of '" + w + "'");
            }
            if (x.scheme == "https" && h(":ssl") != x.ssl) V("C13", ci.client, -1, &ci, who + ": not the channel's TLS configuration");
        }
        for (int ch : chs) if (ch >= 0 && hostOf(ch) == c->host && g_chans[ch].scheme != c->scheme) V("C13", ci.client, -1, &ci, who + ": scheme " + c->scheme);
    }
}

// ------------------------------------------------------------------------------------------ statistics
struct Errs { int64_t min = 0, max = 0; std::map<std::pair<int, std::string>, int> exact; std::vector<std::set<int>> some; };
std::map<int, Errs> expErr;

std::set<int> codesOf(Conn *c, std::string &msg, bool &exact)
{
    exact = false;
    if (c->end.kind == "st") { msg = c->end.msg; exact = true; return {int(c->end.arg)}; }
    if (c->end.kind == "ne") return {statusOfNetError(int(c->end.arg))};
    if (c->end.kind == "ssl") return {14, 7};
    return {};
}

// --------------------------------------------------------------------------------------------- streams
void onPost(ConnInfo &ci, size_t idx, const Ev &e)
{
    Conn *c = ci.c;
    Key &k = keys[{c->method(), c->uid}];
    Inc *i = k.cur();
    ci.client = k.client;
    std::string who = c->method() + " stream of client " + std::to_string(k.client) + " (argument " + std::to_string(c->uid) + ")";
    if (destroyed.count(k.client) || destroying.count(k.client))
        V("C09 C13", k.client, -1, &ci, who + ": a request was sent after its client had been destroyed");
    if (i && i->live && i->maybeDead && !k.openOps.empty()) kill(i, "ok", idx, e.t);
    if (!i || !i->live) {
        if (k.openOps.empty()) {
            std::string t = i ? deathTags(i->cause) : std::string("C13");
            V(t + " C13" + (i && i->cause == "ok" ? " C05" : ""), k.client, -1, &ci,
              who + ": connected again although the stream had ended (" + (i ? i->cause : std::string("never subscribed")) + ")");
        }
        i = new Inc;
        i->key = &k;
        k.incs.push_back(i);
    } else {
        std::string ghost = ghostTags(k, e.t);
        bool oldOpen = i->conn && i->conn->endIdx == SIZE_MAX && i->conn->cancelIdx == SIZE_MAX;
        if (i->pend == Inc::Silent) {
            if ((i->conn && i->conn->c && i->conn->c->unread ? late(i->due, e.t) : e.t - i->due) > S) V("C05", k.client, -1, &ci, who + ": reconnected only " + ms(e.t - i->due) + " after the remote host closed the connection");
        } else if (i->pend == Inc::Timed) {
            if (e.t < i->due - 100 * MS) V("C05" + ghost, k.client, -1, &ci, who + ": reconnected " + ms(i->due - e.t) + " too early");
            if (e.t > i->due + S) V("C05", k.client, -1, &ci, who + ": reconnected " + ms(e.t - i->due) + " too late");
        } else if (i->conn && poisoned(i->conn, i->conn->c->arrived)) {
        } else if (i->pendErr && !i->errObserved) {
            bool someCertain = false;
            for (auto s : i->subs) if (s->certain) someCertain = true;
            if (someCertain) V("C05 C04", k.client, -1, &ci, who + ": reconnected without having reported the error");
        } else if (i->pendFin) {
            bool someCertain = false;
            for (auto s : i->subs) if (s->certain) someCertain = true;
            if (someCertain) V("C04 C07 C13", k.client, -1, &ci, who + ": connected again although the server had completed it and completion was not reported");
        } else {
            V("C05 C13" + ghost + (k.openOps.empty() ? "" : " C07"), k.client, -1, &ci, who + ": a second connection was opened " + (oldOpen ? "while the first was open" : "without need"));
        }
        i->pend = Inc::None;
        i->pendErr = i->pendFin = i->errObserved = false;
        for (auto s : i->subs) { s->errs = 0; }
    }
    i->conn = &ci;
    ci.inc = i;
    for (auto s : i->subs) s->cur = {0};
    checkWire(ci, k.openOps.empty() ? idx : opIdx[*k.openOps.begin()].begin, idx, argWire([&] {
        for (auto &p : g_ops) if (p.second.kind == "sub" && p.second.uid == c->uid && p.second.method == c->method()) return p.second.line;
        Line l; l.set("uid", c->uid); return l; }()));
}

void onSubEnd(const Ev &e, size_t idx)
{
    int op = int(e.a);
    OpRec &r = g_ops[op];
    Key &k = keys[{r.method, r.uid}];
    k.openOps.erase(op);
    OpIdx &o = opIdx[op];
    o.end = idx;
    o.endT = e.t;
    o.sid = e.b;
    std::set<int> chs;
    channelsIn(r.client, o.begin, idx, chs);
    bool main = e.thread == homeOf(r.client);
    if (r.line.num("nullret")) {
        if (e.b) V("C16", r.client, op, nullptr, opName(op) + ": subscribed without an object for its messages");
        expErr[r.client].min++;
        expErr[r.client].max++;
        expErr[r.client].some.push_back({3});
        return;
    }
    if (!e.b) {
        if (!chs.count(-1)) V("C07 C05", r.client, op, nullptr, opName(op) + ": subscribing returned no stream");
        expErr[r.client].min++;
        expErr[r.client].max++;
        expErr[r.client].some.push_back({2});
        return;
    }
    if (chs.size() == 1 && chs.count(-1)) { V("C01 C13", r.client, op, nullptr, opName(op) + ": subscribing without a channel returned a stream"); return; }
    Inc *i = nullptr;
    for (auto x : k.incs) if (x->sid == e.b) i = x;
    if (i) {
        if (!i->live && i->deadIdx < o.begin) V("C07 C04", r.client, op, nullptr, opName(op) + ": subscribing after the stream had ended (" + i->cause + ") returned the ended stream");
    } else {
        for (auto x : k.incs) if (!x->sid && x->conn && x->conn->postIdx > o.begin && x->conn->postIdx < idx) i = x;
        Inc *c = k.cur();
        if (!i && c && c->live && !c->sid && !k.openOps.empty()) i = c;    // opened by a subscription that has not returned yet
        if (i) i->sid = e.b;
    }
    if (!i) {
        Inc *cur = k.cur();
        if (cur && cur->live) V("C07", r.client, op, nullptr, opName(op) + ": an identical subscription is live, but another stream was returned");
        else V("C13 C07", r.client, op, nullptr, opName(op) + ": subscribed, but no request was sent");
        return;
    }
    if (subs.count(op)) return;      // already receiving (from another thread)
    auto s = new Sub;
    s->op = op;
    s->certain = main;
    subs[op] = s;
    incOf[op] = i;
    ConnInfo *ci = i->conn;
    int n = int(ci ? ci->complete : 0);
    bool exact = true;
    int mx = 0, mn = INT32_MAX;
    for (auto x : i->subs) {
        mx = std::max(mx, *x->cur.rbegin());
        mn = std::min(mn, *x->cur.begin());
        if (x->cur.size() > 1) exact = false;
    }
    bool fresh = ci && ci->postIdx > o.begin;
    if (fresh && main) s->cur = {0};
    else if (!main) s->cur = rangeSet(fresh || i->subs.empty() ? 0 : mn, n);
    else if (ci && !ci->c->native && !ci->openWindows) s->cur = {n};
    else if (i->subs.empty()) s->cur = rangeSet(0, n);
    else if (exact) s->cur = {mx};
    else s->cur = rangeSet(mn, n);
    if (i->errObserved) s->errs = 1;     // joined after the present break had been reported
    i->subs.push_back(s);
}

void onSubMsg(const Ev &e)
{
    int op = int(e.a);
    OpRec &r = g_ops[op];
    Key &k = keys[{r.method, r.uid}];
    if (e.thread != homeOf(r.client)) V("C08", r.client, op, nullptr, opName(op) + ": message handler ran outside the client's thread");
    Sub *s = subs.count(op) ? subs[op] : nullptr;
    if (!s) {
        s = bindSub(k, op, false);
        if (!s) { V("C03", r.client, op, nullptr, opName(op) + ": a message arrived before any connection"); return; }
        s->cur = rangeSet(0, int(incOf[op]->conn ? incOf[op]->conn->complete : 0));
    }
    Inc *i = incOf[op];
    if (destroyed.count(r.client) || destroying.count(r.client)) { V("C09", r.client, op, nullptr, opName(op) + ": message handler called after its client had been destroyed"); return; }
    if (!i->live || s->fin) {
        // one subscriber's handler ended the stream: the others may still be handed the very message being dispatched
        bool dispatching = false;
        for (auto o : i->subs) if (o != s && o->lastDigest == uint64_t(e.b) && !o->afterEnd) dispatching = true;
        if (i->taking && i->conn && !s->afterEnd) {
            // it ended while its next message was being handed out
            for (int c : s->cur) {
                if (c >= int(i->conn->complete)) continue;
                Frame &f = i->conn->frames[size_t(c)];
                if (f.exact && f.digest != uint64_t(e.b)) continue;
                s->afterEnd = true;
                s->lastDigest = uint64_t(e.b);
                s->lastWild = !f.exact;
                expErr[r.client].max += e.c + int64_t(retGone.count(op));
                return;
            }
        }
        if (dispatching && !s->afterEnd && (s->lastDigest != uint64_t(e.b) || digestCount[uint64_t(e.b)] > 1)) {
            s->afterEnd = true;
            s->lastDigest = uint64_t(e.b);
            expErr[r.client].max += e.c + int64_t(retGone.count(op));
            return;
        }
        V(deathTags(i->cause) + " C03", r.client, op, i->conn, opName(op) + ": message delivered after the stream had ended (" + i->cause + ")");
        return;
    }
    ConnInfo *ci = i->conn;
    uint64_t d = uint64_t(e.b);
    std::set<int> next;
    bool wild = false;
    for (int c : s->cur) {
        if (c >= int(ci->complete)) continue;
        Frame &f = ci->frames[size_t(c)];
        if (!f.exact) { next.insert(c + 1); wild = true; }
        else if (f.digest == d) next.insert(c + 1);
    }
    if (next.empty()) {
        std::string what = "a message that is not the next one", tags = "C03";
        int want = *s->cur.begin();
        for (auto &x : conns) {
            for (size_t j = 0; j < x.frames.size(); j++) {
                if (!x.frames[j].exact || x.frames[j].digest != d) continue;
                if (&x == ci) what = std::string(int(j) < want ? "message " : "message ") + std::to_string(j) + (int(j) < want ? " again" : j < ci->complete ? " (out of order)" : " (before its last byte had arrived)");
                else if (x.inc == i) { what = "message " + std::to_string(j) + " of an earlier connection"; tags = "C03 C05"; }
                else { what = "a message of another stream or call"; tags = "C03 C07 C02"; }
            }
        }
        if (i->subs.size() > 1) tags += " C07";
        if (ci->c->badPayload || ci->c->badFrame) tags += " C10";
        if (ci->c->attempt) tags += " C05";
        V(tags, r.client, op, ci, opName(op) + ": expected message " + std::to_string(want) + " of connection " + std::to_string(ci->c->id) + " (" +
              std::to_string(ci->complete) + " complete), got " + what);
        int nx = want + 1;
        for (size_t j = 0; j < ci->frames.size(); j++) if (ci->frames[j].exact && ci->frames[j].digest == d) nx = int(j) + 1;
        s->cur = {std::min(nx, int(ci->complete))};
        s->lastWild = true;
        return;
    }
    s->cur = next;
    s->lastDigest = d;
    s->lastWild = wild;
    if (retGone.count(op)) {
        // there is nothing to store the message in
        expErr[r.client].min++;
        expErr[r.client].max++;
        expErr[r.client].some.push_back({3});
    }
    if (!wild && e.c > 0) V("C16 C03 C10", r.client, op, ci, opName(op) + ": a correct message could not be decoded");
    if (e.c == 0 && next.size() == 1 && ci->frames[size_t(*next.begin() - 1)].cutOff)
        V("C10 C16", r.client, op, ci, opName(op) + ": a message that is cut off was not reported as an error");
    if (e.c > 1) V("C16", r.client, op, ci, opName(op) + ": one undecodable message raised " + std::to_string(e.c) + " errors");
    expErr[r.client].min += e.c;
    expErr[r.client].max += e.c;
    int idx = *next.begin() - 1;
    if (ci->c->native && next.size() == 1 && ci->frameT[size_t(idx)] >= 0 && late(ci->frameT[size_t(idx)], e.t) > S)
        V("C03", r.client, op, ci, opName(op) + ": message " + std::to_string(idx) + " delivered " + ms(e.t - ci->frameT[size_t(idx)]) + " after it had arrived");
}

void onSubErr(const Ev &e)
{
    int op = int(e.a);
    OpRec &r = g_ops[op];
    Key &k = keys[{r.method, r.uid}];
    if (e.thread != homeOf(r.client)) V("C08", r.client, op, nullptr, opName(op) + ": error handler ran outside the client's thread");
    Sub *s = subs.count(op) ? subs[op] : bindSub(k, op, false);
    if (!s) { V("C04", r.client, op, nullptr, opName(op) + ": an error before any connection"); return; }
    Inc *i = incOf[op];
    std::string text = opName(op) + ": error " + std::to_string(e.b) + " '" + e.s + "'";
    if (destroyed.count(r.client)) { V("C09", r.client, op, nullptr, text + " reported after its client had been destroyed"); return; }
    if (!i->live || s->fin) {
        for (auto o : i->subs) if (o != s && o->errs && !s->errs && i->errObserved) { s->errs++; return; }     // being dispatched when a handler ended the stream
        V(deathTags(i->cause) + " C04", r.client, op, i->conn, text + " reported after the stream had ended (" + i->cause + ")"); return; }
    if (!i->pendErr) {
        if (i->conn && poisoned(i->conn, i->conn->c->arrived)) {
            i->pendErr = true;
            i->pendT = e.t;
            i->codes.clear();
        } else {
            std::string why = i->pendFin ? "although the server completed the stream normally" : i->pend == Inc::Silent ? "although the connection is to be re-established silently" : "without cause";
            V(std::string("C04") + (i->pend == Inc::Silent || !i->pendFin ? " C05" : ""), r.client, op, i->conn, text + " reported " + why);
            expErr[r.client].max++;
            if (i->pendFin) { i->pendFin = false; i->pend = Inc::Timed; i->due = e.t + 1000 * MS; }
            return;
        }
    }
    if (s->errs) { V("C05 C04", r.client, op, i->conn, text + " reported again for the same break"); return; }
    s->errs++;
    checkDelivered(i, s, "before the error", "C04");
    if (!i->codes.empty() && (!i->codes.count(int(e.b)) || (i->msgExact && e.s != i->msg)))
        V("C04", r.client, op, i->conn, text + " reported, but the connection ended with status " + std::to_string(*i->codes.begin()) + (i->msgExact ? " '" + i->msg + "'" : ""));
    if (late(i->pendT, e.t) > S) V("C04", r.client, op, i->conn, text + " reported " + ms(e.t - i->pendT) + " after the break");
    if (!i->errObserved) {
        i->errObserved = true;
        i->pend = Inc::Timed;
        i->due = e.t + 1000 * MS;
        Errs &x = expErr[r.client];
        x.min++;
        x.max++;
        x.exact[{int(e.b), e.s}]++;
    }
}

void onSubFin(const Ev &e, size_t idx)
{
    int op = int(e.a);
    OpRec &r = g_ops[op];
    Key &k = keys[{r.method, r.uid}];
    if (e.thread != homeOf(r.client)) V("C08", r.client, op, nullptr, opName(op) + ": completion handler ran outside the client's thread");
    Sub *s = subs.count(op) ? subs[op] : bindSub(k, op, false);
    if (!s) { V("C04", r.client, op, nullptr, opName(op) + ": completion before any connection"); return; }
    Inc *i = incOf[op];
    if (destroyed.count(r.client)) { V("C09", r.client, op, nullptr, opName(op) + ": completion reported after its client had been destroyed"); return; }
    if (s->fin) { V(deathTags(i->cause) + " C04", r.client, op, i->conn, opName(op) + ": completion reported twice (ended by " + i->cause + ")"); return; }
    s->fin = true;
    if (!i->live) return;
    if (i->aborts) kill(i, "abort", idx, e.t);
    else if (attaching.count(r.client)) kill(i, "attach", idx, e.t);
    else if (destroying.count(r.client)) kill(i, "destroy", idx, e.t);
    else if (i->pendFin) {
        checkDelivered(i, s, "before completion", "C04");
        if (late(i->pendT, e.t) > S) V("C04", r.client, op, i->conn, opName(op) + ": completion reported " + ms(e.t - i->pendT) + " after the server closed the stream");
        kill(i, "ok", idx, e.t);
    } else {
        V(std::string("C04 C06") + (i->pendErr || i->pend != Inc::None ? " C05" : ""), r.client, op, i->conn,
          opName(op) + ": completion reported although nothing ended the stream" + (i->pendErr ? " normally (it ended with an error)" : i->pend == Inc::Silent ? " (the remote host closed the connection)" : ""));
        kill(i, "ok", idx, e.t);
    }
}

void onEnd(ConnInfo &ci, const Ev &e)
{
    Inc *i = ci.inc;
    if (!i || !i->live || i->conn != &ci) return;
    Conn *c = ci.c;
    i->pendT = e.t;
    for (auto s : i->subs) s->errs = 0;
    if (c->end.kind == "ok") { i->pendFin = true; return; }
    if (!c->native && c->end.kind == "ne" && c->end.arg == QNetworkReply::RemoteHostClosedError) {
        i->pend = Inc::Silent;
        i->due = e.t;
        return;
    }
    i->pendErr = true;
    i->errObserved = false;
    i->msg.clear();
    i->codes = codesOf(c, i->msg, i->msgExact);
    bool certain = false;
    for (auto s : i->subs) if (s->certain) certain = true;
    if (!certain) { expErr[i->key->client].max++; i->due = e.t + 1000 * MS; }
}

// an end of which no subscriber with handlers in place could tell
void settle(Inc *i, size_t idx, int64_t t)
{
    for (auto s : i->subs) if (s->certain) return;
    if (i->pendFin && i->conn->c->native) i->maybeDead = true;     // the client's thread gets to know later
    else if (i->pendFin) kill(i, "ok", idx, t);
    else if (i->pendErr) i->pend = Inc::Timed;
}

// what another thread reads from a handle is nothing or one whole message that has arrived for it
void onRead(const Ev &e)
{
    static const uint64_t nothing = digest(refsim::Msg());
    if (uint64_t(e.b) == nothing) return;
    OpRec &r = g_ops[int(e.a)];
    for (auto &ci : conns) {
        if (ci.postIdx > walkIdx || ci.c->method() != r.method || ci.c->uid != r.uid) continue;
        for (size_t i = 0; i < ci.frames.size(); i++) {
            if (!ci.frames[i].exact) return;
            if (ci.frames[i].digest == uint64_t(e.b) && ci.frames[i].end <= ci.c->arrived) return;
        }
    }
    V("C08", r.client, int(e.a), nullptr, opName(int(e.a)) + ": another thread read something from it that no server sent");
}

void walkStreams()
{
    for (size_t idx = 0; idx < g_hist.size(); idx++) {
        const Ev &e = g_hist[idx];
        walkIdx = idx;
        if (idx > finalIdx && e.type != Cancel && e.type != DestroyBegin && e.type != DestroyEnd && e.type != SubMsg && e.type != SubErr && e.type != SubFin && e.type != Post) continue;
        switch (e.type) {
        case SubBegin: {
            OpRec &r = g_ops[int(e.a)];
            Key &k = keys[{r.method, r.uid}];
            k.client = r.client;
            k.method = r.method;
            k.uid = r.uid;
            k.openOps.insert(int(e.a));
            break;
        }
        case SubEnd: onSubEnd(e, idx); break;
        case SubMsg: onSubMsg(e); break;
        case SubRet: {
            Sub *s = subs.count(int(e.a)) ? subs[int(e.a)] : nullptr;
            if (!s) break;
            if (s->lastWild) expErr[g_ops[int(e.a)].client].max++;
            else if (uint64_t(e.b) != s->lastDigest) V("C03", g_ops[int(e.a)].client, int(e.a), incOf[int(e.a)]->conn, opName(int(e.a)) + ": the return object does not hold the message when it is announced");
            break;
        }
        case Take: {
            auto t = incOf.find(int(e.a));
            if (t != incOf.end() && t->second && (e.b ? t->second->live : t->second->live || !t->second->taking)) t->second->taking = e.b != 0;
            break;
        }
        case RetGone: retGone.insert(int(e.a)); break;
        case ReadVal: onRead(e); break;
        case SubErr: onSubErr(e); break;
        case SubFin: onSubFin(e, idx); break;
        case Post: {
            ConnInfo &ci = conns[size_t(e.a)];
            ci.postIdx = idx;
            if (!ci.c->stream) break;
            if (!keys.count({ci.c->method(), ci.c->uid})) { if (!g_qmlKeys.count({ci.c->method(), ci.c->uid})) V("C13", -1, -1, &ci, "a request nobody asked for: " + ci.c->path); break; }
            onPost(ci, idx, e);
            break;
        }
        case Arrive: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (!ci.c->native) ci.openWindows++;
            while (ci.complete < ci.frames.size() && ci.frames[ci.complete].end <= size_t(e.b)) ci.frameT[ci.complete++] = e.t;
            break;
        }
        case ArriveDone: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (ci.c->native) break;
            ci.openWindows--;
            if (ci.openWindows || !ci.inc || !ci.inc->live || ci.inc->conn != &ci || ci.inc->aborts) break;
            for (auto s : ci.inc->subs) {
                if (!s->certain || s->fin || s->cur.count(int(ci.complete))) continue;
                V("C03", ci.client, s->op, &ci, opName(s->op) + ": only " + std::to_string(*s->cur.begin()) + " of " + std::to_string(ci.complete) + " messages delivered although all their bytes have arrived (connection " + std::to_string(ci.c->id) + ")" );
                s->cur = {int(ci.complete)};
            }
            break;
        }
        case End: {
            ConnInfo &ci = conns[size_t(e.a)];
            ci.endIdx = idx;
            if (ci.c->stream) onEnd(ci, e);
            break;
        }
        case EndDone: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (ci.inc && ci.inc->live && ci.inc->conn == &ci) settle(ci.inc, idx, e.t);
            break;
        }
        case Cancel: {
            ConnInfo &ci = conns[size_t(e.a)];
            ci.cancelIdx = idx;
            if (ci.closeBy >= 0) {
                if (late(ci.closeBy - S, e.t, nested) > S) V(ci.closeTags, ci.client, -1, &ci, "connection " + std::to_string(ci.c->id) + ": cancelled towards the server only " + ms(e.t - ci.closeBy + S) + " after the stream ended (" + ci.closeWhy + ")");
                ci.closeBy = -1;
                break;
            }
            if (idx > finalIdx || !ci.inc || !ci.inc->live || ci.inc->conn != &ci) break;
            if (ci.inc->aborts || attaching.count(ci.client) || destroying.count(ci.client) || poisoned(&ci, ci.c->arrived)) break;
            V("C05 C03 C06", ci.client, -1, &ci, "connection " + std::to_string(ci.c->id) + " of a live stream was cancelled by the client without being asked to");
            break;
        }
        case AbortBegin:
            if (g_ops[int(e.a)].kind == "sub" && incOf.count(int(e.a))) incOf[int(e.a)]->aborts++;
            break;
        case AbortEnd: {
            if (g_ops[int(e.a)].kind != "sub" || !incOf.count(int(e.a))) break;
            Inc *i = incOf[int(e.a)];
            if (i->live) {
                // the server may have ended it before another thread could listen
                if (!i->maybeDead) V("C06", i->key->client, int(e.a), i->conn, opName(int(e.a)) + ": aborted, but completion was not reported");
                kill(i, "abort", idx, e.t);
            }
            break;
        }
        case AttachBegin:
            if (e.b >= 0) {
                attaching.insert(int(e.a));
                attachedNow[int(e.a)] = int(e.b);
            }
            break;
        case AttachEnd:
            if (e.b < 0) {
                if (!e.c) V("C12", int(e.a), -1, nullptr, "a channel that belongs to another thread was accepted");
                break;
            }
            attaching.erase(int(e.a));
            for (auto &k : keys) {
                if (k.second.client != int(e.a)) continue;
                for (auto i : k.second.incs) {
                    if (!i->live || !i->conn) continue;
                    if (hostOf(attachedNow[int(e.a)]) == i->conn->c->host) continue;   // subscribed to the new channel meanwhile
                    V("C12", int(e.a), -1, i->conn, "the " + k.second.method + " stream (argument " + std::to_string(k.second.uid) + ") did not end when its client's channel was replaced");
                    kill(i, "attach", idx, e.t);
                }
            }
            break;
        case DestroyBegin:
            destroying.insert(int(e.a));
            destroyIdx[int(e.a)] = idx;
            break;
        case DestroyEnd:
            destroying.erase(int(e.a));
            destroyed.insert(int(e.a));
            for (auto &k : keys) if (k.second.client == int(e.a)) for (auto i : k.second.incs) kill(i, "destroy", idx, e.t);
            break;
        case ClientErr:
            break;
        case Final:
            for (auto &kk : keys) {
                Key &k = kk.second;
                for (auto i : k.incs) {
                    std::string who = k.method + " stream of client " + std::to_string(k.client) + " (argument " + std::to_string(k.uid) + ")";
                    bool certain = false;
                    for (auto s : i->subs) if (s->certain) certain = true;
                    if (!i->live) {
                        if (i->cause != "destroy")
                            for (auto s : i->subs)
                                if (s->certain && !s->fin) V(deathTags(i->cause) + " C07", k.client, s->op, i->conn, opName(s->op) + ": completion was never reported (ended by " + i->cause + ")");
                        continue;
                    }
                    if (i->pendErr && !i->errObserved && certain && e.t > i->pendT + S) V("C04 C05 C16", k.client, -1, i->conn, who + ": the error it ended with was never reported");
                    else if (i->pendFin && certain && e.t > i->pendT + S) V("C04", k.client, -1, i->conn, who + ": completed by the server, but completion was never reported");
                    else if (i->pend != Inc::None && e.t > i->due + S) V("C05", k.client, -1, i->conn, who + ": broken and never re-established");
                    else if (i->conn && i->conn->endIdx == SIZE_MAX && i->conn->cancelIdx == SIZE_MAX) {
                        for (auto s : i->subs)
                            if (s->certain && !s->cur.count(int(i->conn->complete)) && e.t > i->conn->frameT[i->conn->complete - 1] + S)
                                V("C03", k.client, s->op, i->conn, opName(s->op) + ": " + std::to_string(i->conn->complete - size_t(*s->cur.begin())) + " message(s) never delivered");
                        Conn *c = i->conn->c;
                        if (c->native) {
                            for (size_t j = i->conn->complete; j < c->pushT.size(); j++)
                                if (e.t > c->pushT[j] + S) { V("C03", k.client, -1, i->conn, who + ": message " + std::to_string(j) + " was never received"); break; }
                            if (c->statusT >= 0 && e.t > c->statusT + S) V("C04", k.client, -1, i->conn, who + ": ended by the server, never noticed");
                        }
                    }
                    for (auto s : i->subs)
                        if (i->errObserved && s->certain && !s->errs && i->pendErr && e.t > i->pendT + S) V("C04 C07", k.client, s->op, i->conn, opName(s->op) + ": the error was not reported to this subscriber");
                }
            }
            break;
        default: break;
        }
    }
    walkIdx = g_hist.size();
    for (auto &ci : conns)
        if (ci.closeBy >= 0 && ci.endIdx == SIZE_MAX && ci.cancelIdx == SIZE_MAX && finalIdx != SIZE_MAX)
            V(ci.closeTags, ci.client, -1, &ci, "connection " + std::to_string(ci.c->id) + " was never cancelled towards the server although its stream had ended (" + ci.closeWhy + ")");
}

// ----------------------------------------------------------------------------------------------- calls
struct Out { bool ok; size_t idx; int64_t t; int64_t b, c; std::string s; int thread; };
struct CallInfo {
    OpRec *r = nullptr;
    std::vector<Out> outs;
    std::vector<std::pair<size_t, size_t>> aborts;
    std::vector<int> abortThread;
    bool returned = false;
    const Ev *late = nullptr;
    int64_t own = -1;       // own latest completion time, -1 unbounded
    size_t retGone = SIZE_MAX;  // its return object was destroyed
    std::vector<ConnInfo *> cs;
};
std::map<int, CallInfo> calls;

void collectCalls()
{
    for (size_t idx = 0; idx < g_hist.size(); idx++) {
        const Ev &e = g_hist[idx];
        switch (e.type) {
        case CallBegin: calls[int(e.a)].r = &g_ops[int(e.a)]; break;
        case CallEnd: calls[int(e.a)].returned = e.b != 0; break;
        case CallOk: case CallErr: calls[int(e.a)].outs.push_back({e.type == CallOk, idx, e.t, e.b, e.c, e.s, e.thread}); break;
        case AbortBegin: if (g_ops[int(e.a)].kind != "sub") { calls[int(e.a)].aborts.push_back({idx, SIZE_MAX}); calls[int(e.a)].abortThread.push_back(e.thread); } break;
        case AbortEnd: if (g_ops[int(e.a)].kind != "sub") for (auto &a : calls[int(e.a)].aborts) if (a.second == SIZE_MAX) { a.second = idx; break; } break;
        case Late: calls[int(e.a)].late = &e; break;
        case RetGone: if (g_ops[int(e.a)].kind != "sub") calls[int(e.a)].retGone = idx; break;
        default: break;
        }
    }
    for (auto &ci : conns) {
        if (ci.c->stream || g_qmlKeys.count({ci.c->method(), ci.c->uid})) continue;
        bool known = false;
        for (auto &p : calls) {
            if (!p.second.r || p.second.r->uid != ci.c->uid || p.second.r->method != ci.c->method()) continue;
            p.second.cs.push_back(&ci);
            ci.client = p.second.r->client;
            known = true;
        }
        if (!known) V("C13", -1, -1, &ci, "a request nobody asked for: " + ci.c->path + (ci.c->argOk ? " argument " + std::to_string(ci.c->uid) : " undecodable argument"));
    }
}

void checkCalls()
{
    const uint64_t none = digest(refsim::Msg());
    for (auto &p : calls) {
        CallInfo &x = p.second;
        if (x.cs.empty()) continue;
        Conn *c = x.cs[0]->c;
        if (x.cs[0]->endIdx != SIZE_MAX) x.own = c->endT;
        else if (x.cs[0]->cancelIdx != SIZE_MAX && x.cs[0]->cancelIdx < finalIdx) x.own = std::min(c->cancelT, c->native ? INT64_MAX : c->postT + 6300 * MS);
        else if (!c->native) x.own = c->postT + 6300 * MS;
        else x.own = c->statusT;
    }
    for (auto &p : calls) {
        CallInfo &x = p.second;
        OpRec &r = *x.r;
        OpIdx &o = opIdx[r.id];
        Errs &er = expErr[r.client];
        std::string who = opName(r.id);
        std::set<int> chs;
        size_t upto = o.end;
        if (!x.cs.empty()) upto = std::max(upto == SIZE_MAX ? 0 : upto, x.cs[0]->postIdx);
        channelsIn(r.client, o.begin, upto, chs);
        size_t dIdx = destroyIdx.count(r.client) ? destroyIdx[r.client] : SIZE_MAX;
        walkIdx = x.outs.empty() ? g_hist.size() : x.outs[0].idx;
        bool sync = r.kind == "sync", js = r.kind == "js" || r.kind == "jsret";
        for (auto &u : x.outs) {
            if (!sync && u.thread != homeOf(r.client)) V("C08", r.client, r.id, nullptr, who + ": handler ran outside the client's thread");
            if (u.idx > dIdx) V("C09", r.client, r.id, nullptr, who + ": outcome reported after its client had been destroyed");
        }
        if (x.outs.size() > 1) V(std::string("C01") + (x.aborts.empty() ? "" : " C06"), r.client, r.id, nullptr, who + ": " + std::to_string(x.outs.size()) + " outcomes" );
        if (x.cs.size() > 1) V("C13", r.client, r.id, x.cs[0], who + ": " + std::to_string(x.cs.size()) + " requests were sent for one call");
        if (sync && r.line.num("nullret")) {
            if (x.outs.empty()) { if (r.thread == 0 || o.end != SIZE_MAX) V("C01", r.client, r.id, nullptr, who + ": did not return although there is no object for the reply"); }
            else {
                if (x.outs[0].ok || x.outs[0].b != 3) V("C01 C02", r.client, r.id, nullptr, who + ": there was no object for the reply, but it was not refused");
                er.exact[{int(x.outs[0].b), x.outs[0].s}]++;
                er.min++;
                er.max++;
            }
            if (!x.cs.empty()) V("C13", r.client, r.id, x.cs[0], who + ": refused, but a request was sent");
            continue;
        }
        // without a channel
        if (chs.size() == 1 && chs.count(-1)) {
            if (sync && x.outs.empty()) V("C01", r.client, r.id, nullptr, who + ": did not return although there is no channel");
            for (auto &u : x.outs) if (u.ok) V("C01 C02", r.client, r.id, nullptr, who + ": succeeded without a channel");
            if (!sync && x.returned && x.outs.empty() && (r.kind == "async" || js)) V("C01", r.client, r.id, nullptr, who + ": without a channel it neither failed nor returned nothing");
            for (auto &u : x.outs) if (!u.ok && !js) er.exact[{int(u.b), u.s}]++;
            er.min++; er.max++;
            er.some.push_back({2});
            continue;
        }
        if (chs.count(-1)) { er.max += 2; continue; }
        if (x.cs.empty()) {
            if (dIdx != SIZE_MAX && dIdx < finalIdx) continue;
            if (!x.aborts.empty()) { er.max++; if (!x.outs.empty() && !x.outs[0].ok) { er.min++; er.exact[{int(x.outs[0].b), x.outs[0].s}]++; } continue; }
            V("C13 C01", r.client, r.id, nullptr, who + ": no request was sent");
            er.max++;
            continue;
        }
        ConnInfo &ci = *x.cs[0];
        Conn *c = ci.c;
        checkWire(ci, o.begin, ci.postIdx, argWire(r.line));
        bool ended = ci.endIdx != SIZE_MAX && ci.endIdx < finalIdx;
        bool cancelled = !ended && ci.cancelIdx != SIZE_MAX && ci.cancelIdx < finalIdx;
        bool bad = c->badPayload || c->badFrame || c->noMsg;
        bool gone = dIdx != SIZE_MAX && dIdx < finalIdx;
        std::string msg;
        bool msgExact;
        std::set<int> codes = codesOf(c, msg, msgExact);
        if (cancelled && x.aborts.empty() && (!gone || ci.cancelIdx < dIdx)) {
            int64_t d = c->cancelT - c->postT;
            if (c->native || d < 5500 * MS) V("C01 C06", r.client, r.id, &ci, who + ": cancelled by the client after " + ms(d) + " without being asked to");
            else if (d > 6300 * MS + S) V("C01", r.client, r.id, &ci, who + ": given up only after " + ms(d));
        }
        // when it had to be over
        int64_t by = x.own;
        if (sync) {
            // blocking calls on the client's thread return in reverse order
            bool grew = true;
            std::set<int> in = {r.id};
            while (grew) {
                grew = false;
                for (auto &q : calls) {
                    if (in.count(q.first) || !q.second.r || q.second.r->kind != "sync") continue;
                    for (int m : in) {
                        OpIdx &a = opIdx[m], &b = opIdx[q.first];
                        if (a.begin < b.end && b.begin < a.end) { in.insert(q.first); grew = true; break; }
                    }
                }
            }
            for (int m : in) {
                if (calls[m].own < 0 && !calls[m].cs.empty()) by = -1;
                if (by >= 0) by = std::max(by, calls[m].own);
            }
        }
        if (r.thread > 0 && !sync && ended && ci.endIdx < o.end) probe("call over before another thread got its handle");
        if (x.outs.empty()) {
            bool excused = gone || (r.kind == "cb" && !(ended && c->end.kind == "ok")) || by < 0 || finalT <= by + S;
            if (r.thread > 0 && !sync && r.kind != "cb" && ended && ci.endIdx < o.end) excused = true;     // over before the caller could listen
            if (r.thread > 0 && !sync && o.end == SIZE_MAX) excused = true;
            if (x.retGone < g_hist.size() && ended && c->end.kind == "ok") excused = true;      // QML: such a reply is ignored
            if (!excused) V(std::string("C01") + (x.aborts.empty() ? "" : " C06"), r.client, r.id, &ci, who + ": no outcome although " + (ended ? "the server answered" : "the time is over"));
            if (r.kind == "cb" || r.thread > 0) {
                bool failed = (ended && c->end.kind != "ok") || cancelled;
                if (failed && !gone) { er.min++; er.max++; er.some.push_back(ended ? codes : std::set<int>{14, 4, 10}); }
                else if (failed) er.max++;
            } else if (gone || ended) er.max++;
            if (x.late && ended && c->end.kind == "ok" && !bad && uint64_t(x.late->b) != c->digests[0])
                V("C02", r.client, r.id, &ci, who + ": the reply does not hold the server's message");
            if (x.late) { er.min += x.late->c; er.max += x.late->c; }
            continue;
        }
        Out &u = x.outs[0];
        bool abortedBefore = false, strictAbort = false;
        for (size_t k = 0; k < x.aborts.size(); k++) {
            if (x.aborts[k].first < u.idx) { abortedBefore = true; if (x.abortThread[k] == homeOf(r.client)) strictAbort = true; }
        }
        std::string got = u.ok ? "success" : "error " + std::to_string(u.b) + " '" + u.s + "'";
        for (auto &a : x.aborts)
            if (a.second != SIZE_MAX && a.second < u.idx) { V("C06 C08", r.client, r.id, &ci, who + ": abort() returned, but the call was over only later"); break; }
        if (strictAbort && (u.ok || u.b != 10)) V("C06", r.client, r.id, &ci, who + ": aborted, but its outcome is " + got);
        else if (u.ok) {
            if (!ended || ci.endIdx > u.idx || c->end.kind != "ok") V("C01 C02", r.client, r.id, &ci, who + ": reported success although the server " + (ended ? "failed the call" : "had not answered"));
            else if (x.retGone < u.idx || (r.kind == "jsret" && x.retGone < g_hist.size() && !u.b)) { }    // nothing to look at
            else if (!bad) {
                if (uint64_t(u.b) != c->digests[0]) {
                    std::string what = "something else";
                    std::string tags = "C02";
                    for (auto &y : conns) for (size_t j = 0; j < y.c->digests.size(); j++) if (y.c->digests[j] == uint64_t(u.b)) { what = "the message of another call or stream"; }
                    V(tags, r.client, r.id, &ci, who + ": the server's message was expected, got " + what);
                }
                if (u.c) V("C16 C02", r.client, r.id, &ci, who + ": a correct message could not be decoded");
            } else if (!c->noMsg && ci.frames.size() == 1 && ci.frames[0].cutOff && (sync || !u.c) && !js)
                V("C10 C16", r.client, r.id, &ci, who + ": a reply that is cut off was not reported as an error");
        } else {
            bool fine = false;
            if (u.b == 10 && abortedBefore) fine = true;
            else if (ended && ci.endIdx < u.idx && c->end.kind != "ok" && codes.count(int(u.b)) && (!msgExact || u.s == msg)) fine = true;
            else if (ended && c->end.kind == "ok" && bad && sync && (u.b == 2 || u.b == 3 || u.b == 11 || u.b == 13 || u.b == 15)) fine = true;
            else if (ended && c->end.kind == "ok" && sync && x.retGone < u.idx) fine = true;    // nothing left to put the reply into
            else if (ended && c->end.kind == "ok" && c->noMsg && (u.b == 2 || u.b == 3 || u.b == 11 || u.b == 12 || u.b == 13 || u.b == 15)) fine = true;
            else if (!ended && !c->native && cancelled && (u.b == 14 || u.b == 4)) fine = true;
            if (!fine) {
                std::string want = !ended ? "nothing yet" : c->end.kind == "ok" ? "success" : "status " + std::to_string(*codes.begin()) + (msgExact ? " '" + msg + "'" : "");
                V(std::string("C02 C01") + (u.b == 10 ? " C06" : ""), r.client, r.id, &ci, who + ": " + got + " although the server's answer was " + want);
            }
            if (sync && u.c && !(ended && c->end.kind == "ok" && bad)) V("C02", r.client, r.id, &ci, who + ": failed, but the return object was changed");
        }
        if (by >= 0 && !abortedBefore && u.t > by + S) V("C01", r.client, r.id, &ci, who + ": outcome reported " + ms(u.t - by) + " late");
        if (abortedBefore && u.b == 10) {
            size_t ab = x.aborts[0].second;
            int64_t at = ab < g_hist.size() ? g_hist[ab].t : u.t;
            bool endedBefore = ci.endIdx < (ab == SIZE_MAX ? u.idx : ab);
            if (!endedBefore && (ci.cancelIdx == SIZE_MAX || late(at, c->cancelT, nested) > S)) {
                bool laterEnd = ci.endIdx != SIZE_MAX && late(at, c->endT, nested) <= S;
                if (!laterEnd && late(at, finalT, nested) > S) V("C06", r.client, r.id, &ci, who + ": aborted, but not cancelled towards the server");
            }
        }
        if (!u.ok) { er.min++; er.max++; er.exact[{int(u.b), u.s}]++; }
        else { er.min += u.c; er.max += u.c; if (bad && (sync || js)) er.max++; }
        if (x.late) {
            er.min += x.late->c;
            er.max += x.late->c;
            if (!bad && x.late->c) V("C16", r.client, r.id, &ci, who + ": a correct message could not be decoded");
            if (u.ok && !bad && uint64_t(x.late->b) != c->digests[0]) V("C02", r.client, r.id, &ci, who + ": the reply no longer holds the server's message");
            if (!u.ok && uint64_t(x.late->b) != none) V("C02 C06", r.client, r.id, &ci, who + ": failed, but its reply holds a message");
        }
    }
}

// a client that is gone has released its end of every request
void checkReleased()
{
    for (auto &ci : conns) {
        if (ci.c->native || ci.client < 0 || finalIdx == SIZE_MAX) continue;
        auto d = destroyIdx.find(ci.client);
        if (d == destroyIdx.end() || d->second > finalIdx || late(g_hist[d->second].t, finalT, nested) <= S) continue;
        walkIdx = finalIdx;
        if (ci.c->replyGone > finalIdx) V("C09", ci.client, -1, &ci, "request " + std::to_string(ci.c->id) + " (" + ci.c->path + ") of client " + std::to_string(ci.client) + " was never released although the client was destroyed");
    }
}

// a client keeps no more than its unfinished operations, and the handles the application holds
void checkLeft()
{
    std::map<int, int64_t> pending, live;
    int64_t workers = 0;
    for (auto &c : calls) {
        if (!c.second.r || !c.second.outs.empty()) continue;
        // without an outcome of its own: failed calls with a callback, or over before another thread could listen
        bool over = !c.second.cs.empty() && (c.second.cs[0]->endIdx < finalIdx || c.second.cs[0]->cancelIdx < finalIdx);
        if (over || c.second.cs.empty()) continue;
        pending[c.second.r->client]++;
        workers++;
    }
    for (auto &k : keys) for (auto &i : k.second.incs) if (i->live || i->deadIdx > finalIdx) { live[k.second.client]++; workers++; }
    bool qml = !g_qmlKeys.empty();
    walkIdx = finalIdx;
    for (auto &e : g_hist) {
        if (e.type != Left) continue;
        int c = int(e.a);
        if (c < 0) {
            if (!qml && e.b > workers) V("C17", -1, -1, nullptr, std::to_string(e.b) + " worker threads are running for " + std::to_string(workers) + " calls and streams in progress");
            continue;
        }
        std::string who = "client " + std::to_string(c);
        if (e.b > pending[c]) V("C17", c, -1, nullptr, who + " keeps " + std::to_string(e.b) + " call replies nobody holds, of " + std::to_string(pending[c]) + " calls in progress");
        if (!qml && e.c > live[c]) V("C17", c, -1, nullptr, who + " keeps " + std::to_string(e.c) + " streams nobody holds, of " + std::to_string(live[c]) + " live ones");
        int64_t held = 0;
        for (auto &p : g_ops) held += p.second.client == c;
        int64_t all = atoll(e.s.c_str());
        if (!qml && all > 12 + 6 * held) V("C17", c, -1, nullptr, who + " owns " + std::to_string(all) + " objects after no more than " + std::to_string(held) + " operations");
    }
    for (auto &ci : conns) {
        if (ci.c->native || finalIdx == SIZE_MAX || ci.c->replyGone <= finalIdx) continue;
        size_t over = std::min(ci.endIdx, ci.cancelIdx);
        if (over >= finalIdx || late(g_hist[over].t, finalT, nested) <= S) continue;
        V("C17", ci.client, -1, &ci, "request " + std::to_string(ci.c->id) + " (" + ci.c->path + ") was over, but never released");
    }
}

void checkErrors()
{
    std::map<int, std::vector<const Ev *>> got;
    std::set<int> gone;
    for (auto &e : g_hist) {
        if (e.type == DestroyEnd) gone.insert(int(e.a));
        if (e.type != ClientErr) continue;
        got[int(e.a)].push_back(&e);
        if (gone.count(int(e.a))) V("C09", int(e.a), -1, nullptr, "client " + std::to_string(e.a) + " signalled an error after it had been destroyed");
    }
    for (auto &g : got) if (!expErr.count(g.first)) expErr[g.first];
    for (auto &p : expErr) {
        auto &g = got[p.first];
        Errs &x = p.second;
        std::string who = "client " + std::to_string(p.first);
        std::string codes;
        for (auto e : g) codes += (codes.empty() ? "" : ",") + std::to_string(e->b);
        if (int64_t(g.size()) < x.min) V("C16", p.first, -1, nullptr, who + ": " + std::to_string(x.min) + " failures, but only " + std::to_string(g.size()) + " error signals (" + codes + ")");
        else if (int64_t(g.size()) > x.max) V("C16", p.first, -1, nullptr, who + ": " + std::to_string(x.max) + " failures, but " + std::to_string(g.size()) + " error signals (" + codes + ")");
        std::map<std::pair<int, std::string>, int> have;
        std::map<int, int> byCode;
        for (auto e : g) { have[{int(e->b), e->s}]++; byCode[int(e->b)]++; }
        for (auto &w : x.exact)
            if (have[w.first] < w.second) V("C16", p.first, -1, nullptr, who + ": failure " + std::to_string(w.first.first) + " '" + w.first.second + "' was not signalled with the same status");
        for (auto &s : x.some) {
            bool any = false;
            for (int c : s) if (byCode[c]) any = true;
            if (!any) V("C16", p.first, -1, nullptr, who + ": a failure with status " + std::to_string(*s.begin()) + " was not signalled");
        }
    }
}
}

std::set<std::pair<std::string, int64_t>> g_qmlKeys;

#include "checkqml.h"

void checkGrpc(const Plan &plan)
{
    for (auto &l : plan.lines)
        if (l.kind == "op" && l.get("k") == "qset" && l.get("prop") == "arg" && l.num("val") >= 0) {
            g_qmlKeys.insert({"watch", l.num("val")});
            g_qmlKeys.insert({"feed", l.num("val")});
        }
    int64_t slow = 0;
    for (auto &e : g_hist) if (e.type == Slow) slow += e.b;
    S = 400 * MS + sim::stats().stallTime + slow + g_slowCancelTime;
    conns.resize(g_conns.size());
    for (size_t i = 0; i < g_conns.size(); i++) { conns[i].c = g_conns[i].get(); prepareConn(conns[i]); }
    for (size_t idx = 0; idx < g_hist.size(); idx++) {
        const Ev &e = g_hist[idx];
        if (e.type == Final && finalIdx == SIZE_MAX) { finalIdx = idx; finalT = e.t; }
        if (e.type == SubBegin || e.type == CallBegin) { OpIdx &o = opIdx[int(e.a)]; o.begin = idx; o.beginT = e.t; o.thread = e.thread; }
        if (e.type == CallEnd) { OpIdx &o = opIdx[int(e.a)]; o.end = idx; o.endT = e.t; }
        if (e.type == AttachBegin && e.b >= 0) attachHist[int(e.a)].push_back({idx, SIZE_MAX, int(e.b)});
        if (e.type == AttachEnd && e.b >= 0) {
            auto &h = attachHist[int(e.a)];
            for (auto r = h.rbegin(); r != h.rend(); ++r) if (r->end == SIZE_MAX && r->second == e.b) { r->end = idx; break; }
        }
        if (e.type == AbortBegin) { auto o = g_ops.find(int(e.a)); abortsAt.push_back({idx, int(e.a), o == g_ops.end() ? -1 : o->second.client}); }
        if (e.type == Post) conns[size_t(e.a)].postIdx = idx;
        if (e.type == Final && e.a) {
            // blocking calls still in progress: judged below like every other call
        }
    }
    for (int all = 0; all < 2; all++) {
        auto &out = all ? nested : blocked;
        std::vector<std::pair<int64_t, int64_t>> iv;
        for (auto &o : opIdx) {
            auto op = g_ops.find(o.first);
            if (op != g_ops.end() && op->second.kind == "sync" && (all || o.second.thread == g_mainThread)) iv.push_back({o.second.beginT, o.second.endT < 0 ? INT64_MAX : o.second.endT});
        }
        std::sort(iv.begin(), iv.end());
        for (auto &b : iv) {
            if (!out.empty() && b.first <= out.back().second) out.back().second = std::max(out.back().second, b.second);
            else out.push_back(b);
        }
    }
    walkStreams();
    for (auto &ci : conns) if (ci.endIdx == SIZE_MAX && ci.c->ended) for (size_t i = 0; i < g_hist.size(); i++) if (g_hist[i].type == End && g_hist[i].a == ci.c->id) ci.endIdx = i;
    collectCalls();
    checkCalls();
    if (g_qmlKeys.size()) checkQml(plan);
    checkErrors();
    checkReleased();
    checkLeft();
}
