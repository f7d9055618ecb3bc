// The oracle of QML stream elements (part of check.cpp): a reference model of one element, driven by the recorded
// history of property changes, server actions, and what the element did.
namespace {
struct El {
    int id = 0;
    bool alive = true;
    int client = -1;
    std::string method;
    int64_t arg = -1;
    bool argGone = false;           // the argument object was destroyed; a subscription made with it goes on
    bool enabled = false;
    int conn = -1;                  // connection of the present subscription
    size_t delivered = 0;
    enum Need { None, New, Silent, Retry } need = None;   // a request has to be made
    int64_t needFrom = 0, needTo = 0;
    bool pendFin = false, pendErr = false;
    int64_t pendT = 0;
    std::set<int> codes;
    std::string msg;
    bool msgExact = false;
    int failCode = -1;              // subscribing cannot work and has to be reported with this status
    int64_t failT = 0;
    bool failErr = false;
    int64_t failNest = -1;
    int64_t restartUntil = -1;      // enabled again from inside the handler that is told about the change
    int64_t strayUntil = -1;        // a native request of a subscription already given up may still be on its way
    int inEnabled = 0;
    bool heldAtEvent = false;       // had a stream when its client was re-attached or destroyed
};
std::map<int, El> els;
std::map<int64_t, int> elOfArg;
std::set<int> qmlDestroyed;
std::map<int, int> qmlAttach;

std::string elName(const El &l) { return "element " + std::to_string(l.id); }
bool elMethodOk(const El &l) { return l.method == "watch" || l.method == "feed" || l.method == "Watch" || l.method == "Feed"; }
bool elComplete(const El &l) { return l.alive && l.enabled && l.client >= 0 && !l.method.empty() && l.arg != -1 && !l.argGone; }
std::set<int> qmlDying;        // clients being destroyed
bool elWants(const El &l) { return elComplete(l) && !qmlDying.count(l.client) && elMethodOk(l) && l.arg >= 0 && qmlAttach[l.client] >= 0; }
bool elWanted(El l) { l.argGone = false; return elWants(l); }
bool elHeld(const El &l) { return l.conn >= 0 || l.need != El::None; }

void elGiveUp(El &l, int64_t t)
{
    if (l.conn >= 0) {
        ConnInfo &ci = conns[size_t(l.conn)];
        if (ci.endIdx == SIZE_MAX && ci.cancelIdx == SIZE_MAX && ci.closeBy < 0) { ci.closeBy = t + S; ci.closeTags = "C14"; ci.closeWhy = elName(l); }
    } else if (l.need != El::None) l.strayUntil = t + S;
    l.conn = -1;
    l.need = El::None;
    l.pendFin = l.pendErr = false;
}
void elChanged(El &l, int64_t t)
{
    elGiveUp(l, t);
    l.heldAtEvent = false;
    if (l.failCode >= 0 && l.failErr) l.failNest = t + S;      // changed by the handler of the error
    l.failCode = -1;
    l.failErr = false;
    if (elWants(l)) { l.need = El::New; l.needFrom = t; l.needTo = t + S; }
    else if (elComplete(l) && !qmlDying.count(l.client)) {
        l.failCode = !elMethodOk(l) ? 12 : l.arg < 0 ? 3 : 2;
        l.failT = t;
    }
}
// every message complete so far must have been handed over
void elDelivered(El &l, const char *when)
{
    if (l.conn < 0) return;
    ConnInfo &ci = conns[size_t(l.conn)];
    if (l.delivered < ci.complete)
        V("C14 C03", l.client, -1, &ci, elName(l) + ": " + std::to_string(l.delivered) + " of " + std::to_string(ci.complete) + " messages received were signalled " + when);
    l.delivered = ci.complete;
}
void elTime(El &l, int64_t t)
{
    if (!l.alive) return;
    if (l.need != El::None && t > l.needTo) {
        V(l.need == El::New ? "C14" : "C14 C05", l.client, -1, nullptr, elName(l) + ": enabled with client, method and argument set, but " +
          (l.need == El::New ? "no subscription was made" : "its broken subscription was not re-established"));
        l.need = El::None;
    }
    if (l.pendFin && t > l.pendT + S) { V("C14 C04", l.client, -1, nullptr, elName(l) + ": still enabled after the server completed its stream"); l.pendFin = false; }
    if (l.pendErr && t > l.pendT + S) { V("C14 C04", l.client, -1, nullptr, elName(l) + ": the error its stream ended with was not signalled"); l.pendErr = false; }
    if (l.failCode >= 0 && t > l.failT + S) {
        V("C14", l.client, -1, nullptr, elName(l) + ": subscribing could not work, but " + (l.failErr ? "the element stayed enabled" : "no error was signalled"));
        l.failCode = -1;
    }
}

void checkQml(const Plan &plan)
{
    for (auto &ci : conns) { ci.complete = 0; if (g_qmlKeys.count({ci.c->method(), ci.c->uid})) { ci.endIdx = ci.cancelIdx = SIZE_MAX; ci.closeBy = -1; } }
    for (auto &l : plan.lines) {
        if (l.kind == "qml") { els[int(l.num("id"))].id = int(l.num("id")); }
        if (l.kind == "client") qmlAttach[int(l.num("id"))] = -1;
        if (l.kind == "op" && l.get("k") == "qset" && l.get("prop") == "arg" && l.num("val") >= 0) elOfArg[l.num("val")] = int(l.num("el"));
    }
    std::set<int> atts;         // clients being given another channel
    std::set<int> &dests = qmlDying;
    for (size_t idx = 0; idx < g_hist.size(); idx++) {
        const Ev &e = g_hist[idx];
        walkIdx = idx;
        bool fin = idx > finalIdx;
        if (!fin) for (auto &p : els) elTime(p.second, e.t);
        switch (e.type) {
        case AttachBegin:
            if (e.b < 0) break;
            atts.insert(int(e.a));
            for (auto &p : els) p.second.heldAtEvent = p.second.client == int(e.a) && elHeld(p.second);
            qmlAttach[int(e.a)] = int(e.b);
            break;
        case AttachEnd:
            if (e.b < 0) break;
            atts.erase(int(e.a));
            for (auto &p : els) {
                El &l = p.second;
                if (!l.heldAtEvent || l.client != int(e.a)) continue;
                l.heldAtEvent = false;
                if (l.enabled && l.restartUntil < e.t) {
                    V("C14 C12", l.client, -1, nullptr, elName(l) + ": still enabled after the channel its stream used was replaced");
                    elGiveUp(l, e.t);
                }
            }
            break;
        case DestroyBegin:
            dests.insert(int(e.a));
            for (auto &p : els) p.second.heldAtEvent = p.second.client == int(e.a) && elHeld(p.second);
            break;
        case DestroyEnd:
            dests.erase(int(e.a));
            for (auto &p : els) {
                El &l = p.second;
                if (l.client != int(e.a)) continue;
                if (l.heldAtEvent && l.enabled && l.alive && !fin && l.restartUntil < e.t) V("C14", l.client, -1, nullptr, elName(l) + ": still enabled after its client, and with it its stream, was destroyed");
                l.heldAtEvent = false;
                elGiveUp(l, e.t);
                l.client = -1;
                l.failCode = -1;
            }
            qmlDestroyed.insert(int(e.a));
            break;
        case QProp: {
            El &l = els[int(e.a)];
            std::string prop = e.s.substr(0, e.s.find('=')), val = e.s.substr(e.s.find('=') + 1);
            bool same = true;
            if (prop == "enabled") { bool v = val != "0"; same = v == l.enabled; l.enabled = v; }
            if (prop == "method") { if (val == "-") val.clear(); same = val == l.method; l.method = val; }
            if (prop == "arg") { int64_t v = atoll(val.c_str()); same = l.argGone ? v == -1 : v == l.arg; if (!same) { l.arg = v; l.argGone = false; } }
            if (prop == "client") { int v = atoi(val.c_str()); if (v < 0 || qmlDestroyed.count(v) || !qmlAttach.count(v)) v = -1; same = v == l.client; l.client = v; }
            if (!same) elChanged(l, e.t);
            if (l.inEnabled) l.restartUntil = e.t + S;
            break;
        }
        case QPropEnd: break;
        case QArgGone:
            for (auto &p : els) if (p.second.arg == e.a) p.second.argGone = true;
            break;
        case QEnabled: {
            El &l = els[int(e.a)];
            l.inEnabled++;
            if (!l.alive) { V("C14 C09", l.client, -1, nullptr, elName(l) + ": signals after it had been destroyed"); break; }
            if (e.thread != g_mainThread) V("C14 C08", l.client, -1, nullptr, elName(l) + ": signal outside its thread");
            bool v = e.b != 0;
            if (v == l.enabled) break;      // as asked
            if (v) { V("C14", l.client, -1, nullptr, elName(l) + ": became enabled without being asked to"); l.enabled = v; break; }
            bool why = l.pendFin || l.failCode >= 0 || atts.count(l.client) || dests.count(l.client) || l.restartUntil >= e.t || l.failNest >= e.t;
            if (!why) V("C14", l.client, -1, l.conn >= 0 ? &conns[size_t(l.conn)] : nullptr, elName(l) + ": became disabled although its stream had not ended");
            if (l.pendFin && !atts.count(l.client) && !dests.count(l.client)) elDelivered(l, "before it became disabled");
            if (l.failCode >= 0 && !l.failErr && !l.pendFin) V("C14", l.client, -1, nullptr, elName(l) + ": became disabled without signalling why");
            l.enabled = false;
            elChanged(l, e.t);
            break;
        }
        case QEnabledEnd: {
            El &l = els[int(e.a)];
            if (l.inEnabled) l.inEnabled--;
            if (l.restartUntil >= 0 && l.restartUntil < e.t + S) { l.restartUntil = e.t + S; }
            break;
        }
        case QMsg: {
            El &l = els[int(e.a)];
            if (!l.alive) { V("C14 C09", l.client, -1, nullptr, elName(l) + ": message after it had been destroyed"); break; }
            if (l.conn < 0) { V("C14", l.client, -1, nullptr, elName(l) + ": message although it holds no subscription"); break; }
            ConnInfo &ci = conns[size_t(l.conn)];
            if (e.b != e.c) V("C14", l.client, -1, &ci, elName(l) + ": the message signalled is not the return value");
            if (l.delivered >= ci.complete || ci.frames[l.delivered].digest != uint64_t(e.b)) {
                V(std::string("C14 C03") + (ci.c->attempt ? " C05" : ""), l.client, -1, &ci, elName(l) + ": the return value signalled is not message " + std::to_string(l.delivered) + " of connection " + std::to_string(l.conn));
                l.delivered = std::min(l.delivered + 1, ci.complete);
                break;
            }
            if (ci.c->native && e.t > ci.frameT[l.delivered] + S) V("C14", l.client, -1, &ci, elName(l) + ": message signalled late");
            l.delivered++;
            break;
        }
        case QErr: {
            El &l = els[int(e.a)];
            std::string text = elName(l) + ": error " + std::to_string(e.b) + " '" + e.s + "'";
            if (!l.alive) { V("C14 C09", l.client, -1, nullptr, text + " after it had been destroyed"); break; }
            if (l.failCode >= 0 && !l.failErr) {
                if (int(e.b) != l.failCode) V("C14", l.client, -1, nullptr, text + " instead of status " + std::to_string(l.failCode));
                l.failErr = true;
                if (l.failCode == 2) expErr[l.client].max++;       // no channel: the client says so, too
                break;
            }
            if (!l.pendErr) {
                expErr[l.client].max++;
                if (l.restartUntil < e.t) V("C14", l.client, -1, l.conn >= 0 ? &conns[size_t(l.conn)] : nullptr, text + " without cause");
                break;
            }
            if (!l.codes.count(int(e.b)) || (l.msgExact && l.msg != e.s)) V("C14 C04", l.client, -1, &conns[size_t(l.conn)], text + ", but the connection ended with status " + std::to_string(*l.codes.begin()));
            elDelivered(l, "before the error");
            { Errs &x = expErr[l.client]; x.min++; x.max++; x.exact[{int(e.b), e.s}]++; }
            l.pendErr = false;
            l.need = El::Retry;
            l.needFrom = e.t + 900 * MS;
            l.needTo = e.t + 1000 * MS + S;
            break;
        }
        case QDestroy:
            els[int(e.a)].alive = false;
            break;
        case QDestroyEnd:
            elGiveUp(els[int(e.a)], e.t);
            break;
        case Post: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (!g_qmlKeys.count({ci.c->method(), ci.c->uid})) break;
            El &l = els[elOfArg[ci.c->uid]];
            ci.postIdx = idx;
            ci.client = l.client;
            std::string m = l.method;
            if (!m.empty()) m[0] = char(tolower(m[0]));
            std::string who = elName(l) + ": request " + std::to_string(ci.c->id) + " (" + ci.c->method() + ", argument " + std::to_string(ci.c->uid) + ")";
            bool right = elWanted(l) && m == ci.c->method() && l.arg == ci.c->uid && hostOf(qmlAttach[l.client]) == ci.c->host;
            if (right && l.conn >= 0 && !conns[size_t(l.conn)].c->native && l.restartUntil < e.t && (l.need == El::None || conns[size_t(l.conn)].endIdx == SIZE_MAX)) {
                V("C14 C05 C13", l.client, -1, &ci, who + " opens a second connection");
            }
            if (right && (l.need != El::None || l.restartUntil >= e.t)) {
                if (l.need == El::Retry && e.t < l.needFrom) V("C14 C05", l.client, -1, &ci, who + " was made too early");
                if (l.conn >= 0 && l.need == El::Silent) elDelivered(l, "before the connection was replaced");
                if (l.conn >= 0) elGiveUp(l, e.t);
                l.need = El::None;
                l.conn = ci.c->id;
                l.delivered = 0;
                Line a;
                a.set("uid", ci.c->uid);
                checkWire(ci, idx, idx, argWire(a));
            } else if (ci.c->native && (l.strayUntil >= e.t || l.restartUntil >= e.t)) {
                ci.closeBy = e.t + S;
                ci.closeTags = "C14";
                ci.closeWhy = elName(l);
            } else {
                V("C14 C13", l.client, -1, &ci, who + (right ? " although it is subscribed already" : " although the element's properties do not ask for it"));
                ci.closeBy = e.t + S;
                ci.closeTags = "C14";
                ci.closeWhy = elName(l);
            }
            break;
        }
        case Arrive: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (!g_qmlKeys.count({ci.c->method(), ci.c->uid})) break;
            if (!ci.c->native) ci.openWindows++;
            while (ci.complete < ci.frames.size() && ci.frames[ci.complete].end <= size_t(e.b)) ci.frameT[ci.complete++] = e.t;
            break;
        }
        case ArriveDone: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (!g_qmlKeys.count({ci.c->method(), ci.c->uid}) || ci.c->native) break;
            ci.openWindows--;
            El &l = els[elOfArg[ci.c->uid]];
            if (!ci.openWindows && l.conn == ci.c->id) elDelivered(l, "although all their bytes have arrived");
            break;
        }
        case End: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (!g_qmlKeys.count({ci.c->method(), ci.c->uid})) break;
            ci.endIdx = idx;
            El &l = els[elOfArg[ci.c->uid]];
            if (l.conn != ci.c->id) { expErr[ci.client].max++; break; }
            l.pendT = e.t;
            if (ci.c->end.kind == "ok") l.pendFin = true;
            else if (!ci.c->native && ci.c->end.kind == "ne" && ci.c->end.arg == QNetworkReply::RemoteHostClosedError) {
                if (!ci.openWindows) elDelivered(l, "before the connection was replaced");
                l.need = El::Silent;
                l.needFrom = e.t;
                l.needTo = e.t + S;
            } else {
                l.pendErr = true;
                l.msg.clear();
                l.codes = codesOf(ci.c, l.msg, l.msgExact);
            }
            break;
        }
        case Cancel: {
            ConnInfo &ci = conns[size_t(e.a)];
            if (!g_qmlKeys.count({ci.c->method(), ci.c->uid})) break;
            ci.cancelIdx = idx;
            El &l = els[elOfArg[ci.c->uid]];
            if (ci.closeBy >= 0) {
                if (e.t > ci.closeBy) V(ci.closeTags, l.client, -1, &ci, elName(l) + ": connection " + std::to_string(ci.c->id) + " was cancelled towards the server only " + ms(e.t - ci.closeBy + S) + " after it was to be");
                ci.closeBy = -1;
                break;
            }
            if (!fin && l.conn == ci.c->id && l.alive && l.restartUntil >= e.t && elWants(l)) {
                l.conn = -1;
                l.need = El::New;
                l.needFrom = e.t;
                l.needTo = e.t + S;
            }
            if (fin || l.conn != ci.c->id || !l.alive || l.restartUntil >= e.t || atts.count(l.client) || dests.count(l.client)) break;
            V("C14", l.client, -1, &ci, elName(l) + ": its subscription was cancelled although it is enabled");
            break;
        }
        case Final:
            for (auto &p : els) {
                El &l = p.second;
                if (l.conn < 0 || !l.alive) continue;
                ConnInfo &ci = conns[size_t(l.conn)];
                if (ci.endIdx != SIZE_MAX || ci.cancelIdx != SIZE_MAX) continue;
                if (l.delivered < ci.complete && e.t > ci.frameT[ci.complete - 1] + S) V("C14 C03", l.client, -1, &ci, elName(l) + ": messages were never signalled");
                for (size_t j = ci.complete; ci.c->native && j < ci.c->pushT.size(); j++)
                    if (e.t > ci.c->pushT[j] + S) { V("C14 C03", l.client, -1, &ci, elName(l) + ": message " + std::to_string(j) + " was never received"); break; }
                if (ci.c->native && ci.c->statusT >= 0 && e.t > ci.c->statusT + S) V("C14 C04", l.client, -1, &ci, elName(l) + ": ended by the server, never noticed");
            }
            break;
        default: break;
        }
    }
    walkIdx = g_hist.size();
    for (auto &ci : conns)
        if (g_qmlKeys.count({ci.c->method(), ci.c->uid}) && ci.closeBy >= 0 && ci.endIdx == SIZE_MAX && ci.cancelIdx == SIZE_MAX && finalIdx != SIZE_MAX)
            V("C14", ci.client, -1, &ci, "connection " + std::to_string(ci.c->id) + " of " + ci.closeWhy + " was never cancelled towards the server");
}
}
