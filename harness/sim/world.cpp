// The simulated application: clients, channels, user threads and the operations of the plan.
#include "world.h"
#include "rng.h"
#include "jsbridge.h"
#include "qquickgrpcstream_p.h"
#include <QCoreApplication>
#include <QEventLoop>
#include <QGrpcChannel>
#include <QGrpcCredentials>
#include <QGrpcHttp2Channel>
#include <QGrpcInsecureCredentials>
#include <QGrpcSslCredentials>
#include <QGrpcUserPasswordCredentials>
#include <QJSEngine>
#include <QTimer>
#include <algorithm>
#include <grpcpp/security/credentials.h>

using namespace QtProtobuf;

std::map<int, OpRec> g_ops;
std::map<std::string, std::string> g_tokens;
std::map<int, ChanInfo> g_chans;
std::set<int> g_deepClients;
std::set<int> g_auxClients;
int g_mainThread = 0;
int g_homeThread = -1;
std::set<int> g_homeClients;
char g_arrivals;

refsim::Msg argMsg(const Line &op)
{
    int64_t u = op.num("uid");
    int asz = int(op.num("asz", 2));
    if (asz == 0) return refsim::Msg();
    refsim::Msg m = makeMsg(u / 8, int32_t(u % 8), asz, uint64_t(op.num("salt", 0)));
    if (!g_deepClients.count(int(op.num("client", -1)))) return m;
    refsim::Msg n;      // a message with a few of the fields
    n.set_uid(m.uid());
    n.set_seq(m.seq());
    n.set_text(m.text());
    n.set_blob(m.blob());
    return n;
}
std::string argWire(const Line &op) { sim::NoPreempt np; return canon(argMsg(op)); }
static void fill(vsim::Msg &o, const Line &op) { sim::NoPreempt np; toQt(argMsg(op), o); }

namespace {

constexpr char simUser[] = "x-sim-user";
constexpr char simPassword[] = "x-sim-password";

class TokenCredentials : public QGrpcCallCredentials {
public:
    TokenCredentials(const std::string &h) : host(h) {}
    QGrpcCredentialMap operator()() { return QGrpcCredentialMap{{QLatin1String("sim-token"), QString::fromStdString(g_tokens[host])}, {QLatin1String("sim-const"), QString("c\xc3\xb6nst")}}; }
    std::string host;
};

struct OpEvent : QEvent {
    static QEvent::Type type() { return QEvent::Type(QEvent::User + 78); }
    OpEvent(int i) : QEvent(type()), id(i) {}
    int id;
};
const int FinalOp = -1;

// the same methods of three services: one whose generated client spells them differently, one of another
// package, whose arguments are of another type
#define ON_CLIENT(c, ofSim, ofAux) (isAux(c) ? [&](vsim::AuxClient *s) { return ofAux; }(static_cast<vsim::AuxClient *>(c)) : isDeep(c) ? [&](vsim::deep::SimClient *s, const vsim::deep::Note &arg) { return ofSim; }(static_cast<vsim::deep::SimClient *>(c), note(arg)) : [&](vsim::SimClient *s) { return ofSim; }(static_cast<vsim::SimClient *>(c)))
#define ON_JSCLIENT(c, ofSim, ofAux) (isAux(c) ? [&](vsim::AuxClient *s) { return ofAux; }(static_cast<vsim::AuxClient *>(c)) : [&](vsim::SimClient *s) { return ofSim; }(static_cast<vsim::SimClient *>(c)))
vsim::deep::Note note(const vsim::Msg &m) { return vsim::deep::Note(m.seq(), m.text(), m.blob(), m.uid()); }
bool isAux(QAbstractGrpcClient *c) { return c->metaObject()->className()[6] == 'A'; }
bool isDeep(QAbstractGrpcClient *c) { return c->metaObject()->className()[6] == 'd'; }

// credentials
QString credText(int64_t n)
{
    switch (n) {
    case 0: return QStringLiteral("user");
    case 1: return QString();
    case 2: return QString::fromUtf8("p\xc3\xa4ss w\xc3\xb6rd: \xe2\x82\xac");
    case 3: return QString(600, QLatin1Char('x'));
    default: return QStringLiteral("u%1").arg(n);
    }
}

struct Element {
    QtProtobuf::QQuickGrpcStream *q = nullptr;
    Line line;
    int msgs = 0, errs = 0, ons = 0, offs = 0, props = 0;
};

class World;
World *g_world = nullptr;
const int CrossThread = 1000;       // the world's thread uses a client that lives elsewhere
// runs the operations of the clients that live in a thread of their own
class Home : public QObject {
public:
    World *w;
    Home(World *w) : w(w) {}
    bool event(QEvent *e) override;
};
class World : public QObject {
public:
    const Plan &plan;
    std::map<int, std::shared_ptr<QAbstractGrpcChannel>> chans;
    std::map<int, QAbstractGrpcClient *> clients;
    std::map<int, int> attached;
    std::map<int, std::shared_ptr<QAbstractGrpcChannel>> held;
    std::vector<std::pair<int, std::shared_ptr<QAbstractGrpcChannel>>> retired;
    std::map<std::pair<int, int>, int> clientErrs;      // by client and thread
    int &errsOf(int client) { return clientErrs[{client, sim::self()}]; }
    std::map<std::string, std::vector<int>> triggers;
    std::vector<int> mainStack;             // blocking calls in progress on the main thread, innermost last
    std::vector<int> handlerStack;          // operations whose handlers are running on the main thread
    std::map<int, Element> elements;
    std::map<int64_t, vsim::Msg *> qargs;
    QObject *qwrong = nullptr;              // an argument of another type
    std::vector<std::thread *> threads;
    std::vector<QThread *> qthreads;
    int usersLeft = 0;
    QThread *homeThread = nullptr;
    Home *home = nullptr;
    std::set<int> homeChans;
    QEventLoop *loop = nullptr;
    QThread *otherThread = nullptr;
    std::shared_ptr<QAbstractGrpcChannel> foreign;
    QJSEngine *js = nullptr;
    JsBridge *bridge = nullptr;
    QJSValue jsBridge, jsMake;
    bool finalDone = false;
    std::map<QGrpcStream *, int> streamIds;
    int nextStreamId = 1;

    World(const Plan &p) : plan(p) {}

    std::shared_ptr<QAbstractGrpcChannel> makeChannel(const ChanInfo &ci)
    {
        QUrl url(QString::fromStdString(ci.target));
        if (ci.native) return std::make_shared<QGrpcChannel>(url, grpc::InsecureChannelCredentials());
        QSslConfiguration ssl;
        ssl.setPeerVerifyDepth(ci.id + 3);
        ssl.setProtocol(ci.id % 2 ? QSsl::TlsV1_2OrLater : QSsl::TlsV1_2);
        std::unique_ptr<QAbstractGrpcCredentials> cred;
        QGrpcSslCredentials sc(ssl);
        QGrpcInsecureChannelCredentials ic;
        bool tls = ci.scheme == "https";
        switch (ci.cred) {
        case 1: {
            QGrpcUserPasswordCredentials<> u(credText(ci.user), credText(ci.password));
            cred = tls ? u | sc : u | ic;
            break;
        }
        case 2: cred = tls ? sc | QGrpcInsecureCallCredentials() : QGrpcInsecureCallCredentials() | ic; break;
        case 3: {
            QGrpcUserPasswordCredentials<simUser, simPassword> u(credText(ci.user), credText(ci.password));
            cred = tls ? sc | u : ic | u;
            break;
        }
        case 4: cred = tls ? sc | TokenCredentials(ci.host) : ic | TokenCredentials(ci.host); break;
        default: cred = tls ? TokenCredentials(ci.host) | sc : TokenCredentials(ci.host) | ic;
        }
        return std::make_shared<QGrpcHttp2Channel>(url, std::move(cred));
    }

    void onHome(const std::function<void()> &f)
    {
        if (!home) {
            homeThread = new QThread;
            home = new Home(this);
            home->moveToThread(homeThread);
            homeThread->start();
            QMetaObject::invokeMethod(home, [] { sim::nameThread("home"); g_homeThread = sim::self(); }, Qt::BlockingQueuedConnection);
        }
        QMetaObject::invokeMethod(home, f, Qt::BlockingQueuedConnection);
    }
    // where the world posts an operation to
    QObject *place(int id)
    {
        auto it = g_ops.find(id);
        if (it == g_ops.end() || it->second.thread == CrossThread || !home) return this;
        int c = it->second.client;
        if (c < 0) { auto ref = g_ops.find(int(it->second.line.num("ref", -1))); if (ref != g_ops.end()) c = ref->second.client; }
        return g_homeClients.count(c) ? static_cast<QObject *>(home) : this;
    }

    void setup()
    {
        for (auto &l : plan.lines) {
            if (l.kind == "world") { g_reuseReplies = l.num("reuse") != 0; g_slowCancel = l.num("slowcancel", 0); }
            if (l.kind == "chan") {
                ChanInfo ci;
                ci.id = int(l.num("id"));
                ci.native = l.get("kind") == "n";
                ci.host = "h" + std::to_string(ci.id) + ".sim:" + std::to_string(5000 + ci.id);
                ci.scheme = l.get("scheme", "http");
                ci.cred = int(l.num("cred"));
                ci.user = l.num("user");
                ci.password = l.num("password");
                if (ci.cred == 1 || ci.cred == 3) {
                    ci.headers[ci.cred == 1 ? "user-name" : simUser] = credText(ci.user).toStdString();
                    ci.headers[ci.cred == 1 ? "user-password" : simPassword] = credText(ci.password).toStdString();
                }
                ci.ssl = std::to_string(ci.id + 3) + "/" + std::to_string(int(ci.id % 2 ? QSsl::TlsV1_2OrLater : QSsl::TlsV1_2));
                ci.tokens = ci.cred == 0 || ci.cred == 4;
                ci.target = ci.scheme == "none" ? "//" + ci.host : ci.scheme + "://" + ci.host;
                if (ci.scheme == "none") ci.scheme = "http";
                if (l.num("slash")) ci.target += l.num("slash") == 1 ? "/" : "/some/where";
                g_chans[ci.id] = ci;
                g_tokens[ci.host] = "tok0";
                if (l.num("home")) { homeChans.insert(ci.id); onHome([&] { chans[ci.id] = makeChannel(ci); }); }
                else chans[ci.id] = makeChannel(ci);
            }
        }
        for (auto &l : plan.lines) {
            if (l.kind != "client") continue;
            int id = int(l.num("id"));
            QAbstractGrpcClient *c = nullptr;
            auto make = [&] {
            if (l.get("svc") == "aux") { c = new vsim::AuxClient; g_auxClients.insert(id); }
            else if (l.get("svc") == "deep") { c = new vsim::deep::SimClient; g_deepClients.insert(id); }
            else c = new vsim::SimClient;
            };
            bool away = l.num("home") != 0;
            if (away) { g_homeClients.insert(id); probe("client with a thread of its own"); onHome(make); }
            else make();
            clients[id] = c;
            QObject::connect(c, &QAbstractGrpcClient::error, this, [this, id](const QGrpcStatus &s) {
                errsOf(id)++;
                hist(ClientErr, id, s.code(), 0, s.message().toStdString());
            }, Qt::DirectConnection);
            int ch = int(l.num("chan", -1));
            attached[id] = -1;
            if (ch >= 0 && chans.count(ch)) { if (away) onHome([&] { attach(id, ch); }); else attach(id, ch); }
        }
        for (auto &l : plan.lines) {
            if (l.kind == "qml") {
                if (!js) js = new QJSEngine;
                Element e;
                e.line = l;
                elements[int(l.num("id"))] = e;
                newElement(int(l.num("id")));
            }
            if (l.kind != "op") continue;
            OpRec r;
            r.line = l;
            r.id = int(l.num("id"));
            r.kind = l.get("k");
            r.client = int(l.num("client", -1));
            r.thread = int(l.num("th", 0));
            r.method = l.get("m");
            r.uid = l.num("uid", -1);
            g_ops[r.id] = r;
            if (l.has("on")) triggers[l.get("on")].push_back(r.id);
        }
        for (auto &p : g_ops) {
            OpRec &r = p.second;
            int owner = r.client;
            if (owner < 0 && r.line.has("ref")) owner = int(g_ops[int(r.line.num("ref"))].client);
            if (g_homeClients.count(owner)) { r.ctx = new QObject; r.ctx->moveToThread(homeThread); }
            else r.ctx = new QObject(this);
            if (r.line.num("ret") || r.kind == "sync" || r.kind == "jsret") r.ret = new vsim::Msg;
            if (r.kind == "sub" && r.ret && !g_homeClients.count(r.client)) {
                // a handler of a field of the return value, called while the message is taken over
                OpRec *rp = &r;
                QObject::connect(r.ret, &vsim::Msg::seqChanged, this, [this, rp] {
                    const std::string what = "p" + std::to_string(++rp->props);
                    if (!triggers.count(std::to_string(rp->id) + ":" + what)) return;
                    hist(Take, rp->id, 1);
                    trigger(rp->id, what);
                    hist(Take, rp->id, 0);
                }, Qt::DirectConnection);
            }
        }
    }

    // ---------------------------------------------------------------------------------- operations
    void attach(int id, int ch)
    {
        hist(AttachBegin, id, ch);
        // releasing a channel inside one of its own handlers or with calls in progress is not asked for
        if (held[id] && (!handlerStack.empty() || callsPending(attached[id], true))) retired.push_back({attached[id], held[id]});
        else if (held[id] && !mainStack.empty()) probe("channel replaced during a blocking call");
        attached[id] = ch;
        held[id] = nullptr;
        clients[id]->attachChannel(chans[ch]);
        held[id] = chans[ch];
        hist(AttachEnd, id, ch);
    }

    void trigger(int op, const std::string &what)
    {
        auto it = triggers.find(std::to_string(op) + ":" + what);
        if (it == triggers.end()) return;
        probe("operation inside a handler");
        handlerStack.push_back(op);
        for (int id : it->second) run(id);
        handlerStack.pop_back();
    }

    int streamId(QGrpcStream *s)
    {
        auto it = streamIds.find(s);
        if (it != streamIds.end()) return it->second;
        int id = nextStreamId++;
        streamIds[s] = id;
        QObject::connect(s, &QObject::destroyed, this, [this, s] { streamIds.erase(s); }, Qt::DirectConnection);
        return id;
    }

    void run(int id)
    {
        auto it = g_ops.find(id);
        if (it == g_ops.end() || it->second.begun) return;
        OpRec &r = it->second;
        const std::string &k = r.kind;
        if (r.line.has("fz") && k != "read") sim::focus(uint64_t(r.line.num("fz")));
        if (k == "abort" || k == "abortcall") { doAbort(r); return; }
        if (k == "slow") { r.begun = true; fired("slow application"); hist(Slow, id, r.line.num("ns")); sim::sleepFor(r.line.num("ns")); return; }
        if (k == "cred") {
            r.begun = true;
            auto c = g_chans.find(int(r.line.num("chan")));
            if (c != g_chans.end()) g_tokens[c->second.host] = r.line.get("val");
            return;
        }
        if (k == "read") { doRead(r); return; }
        if (k == "dropret") {
            r.begun = true;
            auto t = g_ops.find(int(r.line.num("ref")));
            if (t == g_ops.end() || !t->second.ret) return;
            const std::string &tk = t->second.kind;
            if (tk == "sync") {
                // while the call that is to fill it blocks
                if (std::find(mainStack.begin(), mainStack.end(), t->first) == mainStack.end()) return;
            } else if (!t->second.ended || !handlerStack.empty() || !mainStack.empty()) return;
            probe(tk == "sub" ? "return object of a stream destroyed" : tk == "sync" ? "return object of a blocking call destroyed" : "return object of a QML call destroyed");
            hist(RetGone, t->first);
            delete t->second.ret;
            t->second.ret = nullptr;
            return;
        }
        if (k == "drop") { r.begun = true; dropHandle(int(r.line.num("ref"))); return; }
        if (k == "dropchan") { doDropChan(r); return; }
        if (k == "destroy") { doDestroy(r); return; }
        if (k == "qset") { doQSet(r); return; }
        if (k == "qdel") { doQDel(r); return; }
        if (k == "qargdel") {
            r.begun = true;
            auto a = qargs.find(r.line.num("val"));
            if (a == qargs.end() || !handlerStack.empty() || !mainStack.empty()) return;
            probe("argument of a QML element destroyed");
            hist(QArgGone, a->first);
            delete a->second;
            qargs.erase(a);
            return;
        }
        auto c = clients.find(r.client);
        if (c == clients.end() || !c->second) return;
        // a call that blocks while a message is being handed to several subscribers would hold up the others
        if (k == "sync" && sim::self() == g_mainThread && inShared()) { if (!finalDone) later(id); return; }
        r.begun = true;
        if (k == "sync") doSync(r, c->second);
        else if (k == "async" || k == "cb") doAsync(r, c->second);
        else if (k == "js" || k == "jsret") doJs(r, c->second);
        else if (k == "sub") doSub(r, c->second);
        else if (k == "attach") doAttach(r);
        else if (k == "attachbad") doAttachBad(r);
    }

    void doSync(OpRec &r, QAbstractGrpcClient *c)
    {
        vsim::Msg arg;
        fill(arg, r.line);
        bool main = sim::self() == g_mainThread;
        // a return object that already holds something
        { sim::NoPreempt np; toQt(makeMsg(-5, -6, 2, 3), *r.ret); }
        uint64_t before = digestQt(*r.ret);
        if (main) mainStack.push_back(r.id);
        if (main && mainStack.size() > 1) probe("nested blocking call");
        hist(CallBegin, r.id);
        QPointer<vsim::Msg> ret(r.line.num("nullret") ? nullptr : r.ret);
        if (!ret) probe("no return object");
        QGrpcStatus st = ON_CLIENT(c, r.method == "other" ? s->other(arg, ret) : s->unary(arg, ret), r.method == "other" ? s->Other(arg, ret) : s->Unary(arg, ret));
        r.outs++;
        if (main) mainStack.erase(std::remove(mainStack.begin(), mainStack.end(), r.id), mainStack.end());
        uint64_t after = r.ret ? digestQt(*r.ret) : before;
        if (st.code() == QGrpcStatus::Ok) hist(CallOk, r.id, int64_t(after), 0);
        else hist(CallErr, r.id, st.code(), after != before, st.message().toStdString());
        hist(CallEnd, r.id, 1);
        r.ended = true;
    }

    void doAsync(OpRec &r, QAbstractGrpcClient *c)
    {
        vsim::Msg arg;
        fill(arg, r.line);
        hist(CallBegin, r.id);
        int id = r.id;
        OpRec *rp = &r;
        if (r.kind == "cb") {
            std::function<void(QGrpcCallReplyShared)> f = [this, id, rp](QGrpcCallReplyShared rep) {
                rp->outs++;
                int e0 = errsOf(rp->client);
                vsim::Msg m = rep->read<vsim::Msg>();
                hist(CallOk, id, int64_t(digestQt(m)), errsOf(rp->client) - e0);
                trigger(id, "d");
            };
            ON_CLIENT(c, r.method == "other" ? s->other(arg, r.ctx, f) : s->unary(arg, r.ctx, f), r.method == "other" ? s->Other(arg, r.ctx, f) : s->Unary(arg, r.ctx, f));
            hist(CallEnd, id, 1);
            r.ended = true;
            return;
        }
        QGrpcCallReplyShared rep = ON_CLIENT(c, r.method == "other" ? s->other(arg) : s->unary(arg), r.method == "other" ? s->Other(arg) : s->Unary(arg));
        if (rep) {
            QGrpcCallReply *raw = rep.get();
            auto ok = [this, id, rp, raw] {
                rp->outs++;
                int e0 = errsOf(rp->client);
                vsim::Msg m = raw->read<vsim::Msg>();
                hist(CallOk, id, int64_t(digestQt(m)), errsOf(rp->client) - e0);
                trigger(id, "d");
            };
            auto failed = [this, id, rp](const QGrpcStatus &s) {
                rp->outs++;
                hist(CallErr, id, s.code(), 0, s.message().toStdString());
                trigger(id, "d");
            };
            if (id % 3) rep->subscribe(r.ctx, ok, failed, Qt::DirectConnection);
            else {
                rep->subscribe(r.ctx, ok, Qt::DirectConnection);
                QObject::connect(raw, &QGrpcCallReply::error, r.ctx, failed, Qt::DirectConnection);
            }
            if (r.line.num("keep", 1)) r.reply = rep;
        }
        hist(CallEnd, id, rep ? 1 : 0);
        r.ended = true;
    }

    void watch(OpRec &r, QGrpcStream *s)
    {
        int id = r.id;
        OpRec *rp = &r;
        QObject::connect(s, &QGrpcStream::messageReceived, r.ctx, [this, id, rp, s] {
            rp->msgs++;
            sim::wakeAll(&g_arrivals);
            int n = rp->msgs;
            int e0 = errsOf(rp->client);
            vsim::Msg m = s->read<vsim::Msg>();
            hist(SubMsg, id, int64_t(digestQt(m)), errsOf(rp->client) - e0);
            if (rp->ret) hist(SubRet, id, int64_t(digestQt(*rp->ret)));
            trigger(id, "m" + std::to_string(n));
        }, Qt::DirectConnection);
        QObject::connect(s, &QGrpcStream::error, r.ctx, [this, id, rp](const QGrpcStatus &st) {
            rp->errs++;
            int n = rp->errs;
            hist(SubErr, id, st.code(), 0, st.message().toStdString());
            trigger(id, "e" + std::to_string(n));
        }, Qt::DirectConnection);
        QObject::connect(s, &QGrpcStream::finished, r.ctx, [this, id, rp] {
            rp->fins++;
            hist(SubFin, id);
            trigger(id, "f" + std::to_string(rp->fins));
        }, Qt::DirectConnection);
    }

    void doSub(OpRec &r, QAbstractGrpcClient *c)
    {
        vsim::Msg arg;
        fill(arg, r.line);
        hist(SubBegin, r.id);
        QGrpcStreamShared s;
        if (r.ret || r.line.num("nullret")) {
            QPointer<vsim::Msg> p(r.ret);
            if (!p) probe("no return object");
            s = ON_CLIENT(c, r.method == "feed" ? s->streamFeed(arg, p) : s->streamWatch(arg, p), r.method == "feed" ? s->streamFeed(arg, p) : s->streamWatch(arg, p));
        } else {
            s = ON_CLIENT(c, r.method == "feed" ? s->streamFeed(arg) : s->streamWatch(arg), r.method == "feed" ? s->streamFeed(arg) : s->streamWatch(arg));
        }
        if (s) watch(r, s.get());
        hist(SubEnd, r.id, s ? streamId(s.get()) : 0);
        if (s && r.line.num("keep", 1)) r.stream = s;
        r.ended = true;
    }

    void doAbort(OpRec &r)
    {
        r.begun = true;
        auto it = g_ops.find(int(r.line.num("ref")));
        if (it == g_ops.end()) return;
        OpRec &t = it->second;
        bool again = r.line.num("again") != 0;
        if (r.kind == "abort") {
            QGrpcStreamShared s = t.stream;
            if (!s || (t.fins && !again)) return;
            if (t.fins) probe("abort of an ended stream");
            fired("stream aborted");
            hist(AbortBegin, t.id, r.id);
            s->abort();
            hist(AbortEnd, t.id, r.id);
        } else {
            QGrpcCallReplyShared s = t.reply;
            if (!s || (t.outs && !again)) return;
            if (t.outs) probe("abort of a completed call");
            fired("call aborted");
            hist(AbortBegin, t.id, r.id);
            s->abort();
            hist(AbortEnd, t.id, r.id);
        }
    }

    // another thread looks at what a stream or call holds while the client's thread works on it
    void doRead(OpRec &r)
    {
        r.begun = true;
        auto it = g_ops.find(int(r.line.num("ref")));
        if (it == g_ops.end()) return;
        OpRec &t = it->second;
        int64_t n = r.line.num("n", 1), end = r.line.num("follow", 0) ? sim::now() + 3000000000LL : 0;
        for (int64_t i = n; i > 0; i--) {
            if (end) {
                // at the moment at which something arrives
                if (sim::now() >= end) break;
                sim::blockOn(&g_arrivals, end);
                sim::focus(uint64_t(r.line.num("fz", 0)));
            }
            QGrpcStreamShared s = t.stream;
            QGrpcCallReplyShared c = t.reply;
            if (s || c) {
                probe("handle read by another thread");
                vsim::Msg m = s ? s->read<vsim::Msg>() : c->read<vsim::Msg>();
                hist(ReadVal, t.id, int64_t(digestQt(m)), 0);
            }
            s.reset();
            c.reset();
            if (!end) sim::sleepFor(r.line.num("gap"));
        }
    }

    void dropHandle(int ref)
    {
        auto it = g_ops.find(ref);
        if (it == g_ops.end()) return;
        it->second.stream.reset();
        it->second.reply.reset();
    }

    bool busy(int client)
    {
        for (int id : mainStack) if (g_ops[id].client == client) return true;
        for (int id : handlerStack) {
            auto o = g_ops.find(id);
            if (o == g_ops.end() || o->second.client == client) return true;
        }
        return false;
    }

    void doAttach(OpRec &r)
    {
        int ch = int(r.line.num("chan"));
        if (!chans.count(ch) || !chans[ch] || attached[r.client] == ch) return;
        fired("channel replaced");
        attach(r.client, ch);
    }

    void doAttachBad(OpRec &r)
    {
        if (!foreign) return;
        fired("foreign channel offered");
        hist(AttachBegin, r.client, -2);
        int refused = 0;
        try { clients[r.client]->attachChannel(foreign); } catch (std::exception &) { refused = 1; }
        hist(AttachEnd, r.client, -2, refused);
    }

    void purge()
    {
        if (!handlerStack.empty() || !mainStack.empty()) return;
        for (size_t i = 0; i < retired.size();)
            if (callsPending(retired[i].first)) i++;
            else retired.erase(retired.begin() + long(i));
    }

    // a blocking call keeps its channel itself
    bool callsPending(int ch, bool exceptBlocking = false)
    {
        auto blocking = [&](int64_t uid, const std::string &m) {
            for (int id : mainStack) if (exceptBlocking && g_ops[id].uid == uid && g_ops[id].method == m) return true;
            return false;
        };
        auto &ci = g_chans[ch];
        for (auto &c : g_conns)
            if (!c->stream && !c->ended && !c->cancelled && c->host == (ci.native ? ci.target : ci.host) && !blocking(c->uid, c->method())) return true;
        for (auto &p : g_ops)
            if ((p.second.kind == "sync" || p.second.kind == "async" || p.second.kind == "js" || p.second.kind == "jsret" || p.second.kind == "cb") && p.second.begun && attached[p.second.client] == ch && !p.second.outs && p.second.kind != "cb" && !blocking(p.second.uid, p.second.method)) return true;
        return false;
    }

    bool inShared()
    {
        for (int h : handlerStack) {
            int n = 0;
            for (auto &o : g_ops) if (o.second.kind == "sub" && o.second.method == g_ops[h].method && o.second.uid == g_ops[h].uid) n++;
            if (g_ops[h].kind == "sub" && n > 1) return true;
        }
        return false;
    }

    void later(int id) { QTimer::singleShot(100, this, [this, id] { run(id); }); }

    void doDropChan(OpRec &r)
    {
        int ch = int(r.line.num("chan"));
        if (!handlerStack.empty() || !mainStack.empty() || callsPending(ch)) { if (!finalDone) later(r.id); return; }
        r.begun = true;
        purge();
        bool last = chans.count(ch) && chans[ch].use_count() == 1;
        if (last) probe("channel destroyed");
        chans.erase(ch);
    }

    void doDestroy(OpRec &r)
    {
        // inside handlers and blocking calls of other clients only
        if (busy(r.client)) { if (!finalDone) later(r.id); return; }
        r.begun = true;
        if (!handlerStack.empty()) probe("client destroyed inside a handler of another one");
        if (!mainStack.empty()) probe("client destroyed during a blocking call of another one");
        auto c = clients.find(r.client);
        if (c == clients.end() || !c->second) return;
        fired("client destroyed");
        if (r.line.num("withchan")) {
            // the channel goes with the last client that uses it
            bool shared = false;
            for (auto &p : attached) if (p.first != r.client && p.second == attached[r.client] && clients[p.first]) shared = true;
            if (!shared) { chans.erase(attached[r.client]); probe("channel released with its client"); }
        }
        destroyClient(r.client, r.line.num("drop", 1) != 0);
    }

    void destroyClient(int id, bool dropFirst)
    {
        auto dropAll = [&] { for (auto &p : g_ops) if (p.second.client == id) { p.second.stream.reset(); p.second.reply.reset(); } };
        if (dropFirst) dropAll();
        held.erase(id);
        hist(DestroyBegin, id);
        QObject *c = clients[id];
        clients[id] = nullptr;
        delete c;
        hist(DestroyEnd, id);
        dropAll();
    }

    // ------------------------------------------------------------------------ calls made from QML
    void needJs()
    {
        if (!js) js = new QJSEngine;
        if (bridge) return;
        bridge = new JsBridge;
        bridge->onOk = [this](int id, QObject *o) {
            OpRec &r = g_ops[id];
            auto m = qobject_cast<vsim::Msg *>(o);
            r.outs++;
            hist(CallOk, id, m ? int64_t(digestQt(*m)) : -1, 0);
            trigger(id, "d");
        };
        bridge->onErr = [this](int id, const QJSValue &s) {
            OpRec &r = g_ops[id];
            r.outs++;
            hist(CallErr, id, s.property("code").toInt(), 0, s.property("message").toString().toStdString());
            trigger(id, "d");
        };
        QQmlEngine::setObjectOwnership(bridge, QQmlEngine::CppOwnership);
        jsBridge = js->newQObject(bridge);
        jsMake = js->evaluate("(function(b, id) { return [function(v) { b.ok(id, v) }, function(s) { b.err(id, s) }] })");
    }
    void doJs(OpRec &r, QAbstractGrpcClient *c)
    {
        needJs();
        QQmlEngine::setObjectOwnership(c, QQmlEngine::CppOwnership);
        js->newQObject(c);
        auto arg = new vsim::Msg;
        fill(*arg, r.line);
        QJSValue f = jsMake.call({jsBridge, r.id});
        probe("call made from QML");
        hist(CallBegin, r.id);
        if (r.kind == "js") {
            ON_JSCLIENT(c, r.method == "other" ? s->other(arg, f.property(0), f.property(1)) : s->unary(arg, f.property(0), f.property(1)),
                      r.method == "other" ? s->Other(arg, f.property(0), f.property(1)) : s->Unary(arg, f.property(0), f.property(1)));
        } else {
            { sim::NoPreempt np; toQt(makeMsg(-5, -6, 2, 3), *r.ret); }
            int id = r.id;
            // the object is assigned field by field: looked at when that is done
            QObject::connect(r.ret, &vsim::Msg::uidChanged, r.ctx, [this, id] {
                g_ops[id].outs++;
                hist(CallOk, id, 0, 0);
                size_t at = g_hist.size() - 1;
                QTimer::singleShot(0, this, [this, id, at] { if (g_ops[id].ret) g_hist[at].b = int64_t(digestQt(*g_ops[id].ret)); trigger(id, "d"); });
            }, Qt::DirectConnection);
            ON_JSCLIENT(c, r.method == "other" ? s->other(arg, r.ret, f.property(1)) : s->unary(arg, r.ret, f.property(1)),
                      r.method == "other" ? s->Other(arg, r.ret, f.property(1)) : s->Unary(arg, r.ret, f.property(1)));
        }
        delete arg;
        hist(CallEnd, r.id, 1);
        r.ended = true;
    }

    // ------------------------------------------------------------------------------- QML elements
    void newElement(int id)
    {
        auto q = new QQuickGrpcStream;
        QQmlEngine::setObjectOwnership(q, QQmlEngine::CppOwnership);
        js->newQObject(q);
        elements[id].q = q;
        QObject::connect(q, &QQuickGrpcStream::messageReceived, this, [this, id, q](const QJSValue &v) {
            auto m = qobject_cast<vsim::Msg *>(v.toQObject());
            auto rv = qobject_cast<vsim::Msg *>(q->returnValue());
            int n = ++elements[id].msgs;
            hist(QMsg, id, m ? int64_t(digestQt(*m)) : -1, rv ? int64_t(digestQt(*rv)) : -1);
            trigger(200000 + id, "m" + std::to_string(n));
        }, Qt::DirectConnection);
        QObject::connect(q, &QQuickGrpcStream::error, this, [this, id](const QGrpcStatus &s) {
            int n = ++elements[id].errs;
            hist(QErr, id, s.code(), 0, s.message().toStdString());
            trigger(200000 + id, "e" + std::to_string(n));
        }, Qt::DirectConnection);
        QObject::connect(q, &QQuickGrpcStream::returnValueChanged, this, [this, id, q] {
            auto rv = qobject_cast<vsim::Msg *>(q->returnValue());
            if (!rv) return;
            // a binding to a field of the return value, evaluated while the message is taken over
            QObject::connect(rv, &vsim::Msg::seqChanged, this, [this, id] {
                trigger(200000 + id, "p" + std::to_string(++elements[id].props));
            }, Qt::DirectConnection);
        }, Qt::DirectConnection);
        QObject::connect(q, &QQuickGrpcStream::enabledChanged, this, [this, id, q] {
            hist(QEnabled, id, q->enabled());
            bool v = q->enabled();
            int n = v ? ++elements[id].ons : ++elements[id].offs;
            trigger(200000 + id, (v ? "on" : "off") + std::to_string(n));
            hist(QEnabledEnd, id);
        }, Qt::DirectConnection);
    }

    void doQSet(OpRec &r)
    {
        r.begun = true;
        auto e = elements.find(int(r.line.num("el")));
        if (e == elements.end() || !e->second.q) return;
        auto q = e->second.q;
        std::string p = r.line.get("prop");
        hist(QProp, e->first, r.id, 0, p + "=" + r.line.get("val", ""));
        if (p == "enabled") q->setEnabled(r.line.num("val") != 0);
        if (p == "method") q->setMethod(QString::fromStdString(r.line.get("val", "") == "-" ? "" : r.line.get("val")));
        if (p == "client") { int c = int(r.line.num("val")); q->setClient(c >= 0 && clients.count(c) ? clients[c] : nullptr); }
        if (p == "arg") {
            int64_t u = r.line.num("val");
            QObject *m = nullptr;
            if (u == -2) { if (!qwrong) qwrong = new vsim::Leaf; m = qwrong; }
            if (u >= 0) {
                if (!qargs.count(u)) {
                    qargs[u] = new vsim::Msg;
                    Line l;
                    l.set("uid", u);
                    fill(*qargs[u], l);
                }
                m = qargs[u];
            }
            q->setArgument(m);
        }
        hist(QPropEnd, e->first, r.id);
    }

    void doQDel(OpRec &r)
    {
        if (!handlerStack.empty() || !mainStack.empty()) { if (!finalDone) later(r.id); return; }
        r.begun = true;
        auto e = elements.find(int(r.line.num("el")));
        if (e == elements.end() || !e->second.q) return;
        deleteElement(e->first);
    }
    void deleteElement(int id)
    {
        auto &e = elements[id];
        if (!e.q) return;
        hist(QDestroy, id);
        delete e.q;
        e.q = nullptr;
        hist(QDestroyEnd, id);
    }

    struct Arrival { int op; bool end; int64_t n; bool after; };
    std::map<std::string, std::vector<Arrival>> arrivals;
    std::map<std::string, int64_t> arrivalCount;
    void arrival(Conn *c, bool end, bool after)
    {
        const std::string key = std::to_string(c->uid) + "/" + c->method();
        auto it = arrivals.find(key);
        if (it == arrivals.end()) return;
        int64_t &n = arrivalCount[key + (end ? "/e" : "/d")];
        if (!after) n++;
        for (auto &a : it->second) {
            if (a.end != end || a.n != n || a.after != after) continue;
            probe(after ? "operation right after something arrived" : "operation right before something arrived");
            QCoreApplication::postEvent(place(a.op), new OpEvent(a.op));
        }
    }

    // -------------------------------------------------------------------------------------- running
    bool event(QEvent *e) override
    {
        if (e->type() != OpEvent::type()) return QObject::event(e);
        int id = static_cast<OpEvent *>(e)->id;
        purge();
        if (id == FinalOp) {
            if (!mainStack.empty()) {
                // a blocking call has not returned although the network has been quiet for long
                hist(Final, int64_t(mainStack.size()));
                sim::stopPreempting();
                checkGrpc(plan);
                finishRun();
            }
            for (auto &c : clients) {
                if (!c.second) continue;
                // what the client still keeps although the application does not hold it
                std::set<QObject *> mine;
                for (auto &p : g_ops) { mine.insert(p.second.reply.get()); mine.insert(p.second.stream.get()); }
                int64_t replies = 0, streams = 0;
                for (auto o : c.second->findChildren<QGrpcCallReply *>(QString(), Qt::FindDirectChildrenOnly)) if (!mine.count(o)) replies++;
                for (auto o : c.second->findChildren<QGrpcStream *>(QString(), Qt::FindDirectChildrenOnly)) if (!mine.count(o)) streams++;
                hist(Left, c.first, replies, streams, std::to_string(c.second->findChildren<QObject *>().size()));
            }
            hist(Left, -1, js ? -1 : sim::liveUnnamed(), 0);
            hist(Final);
            loop->quit();
            return true;
        }
        run(id);
        return true;
    }

    void user(int th)
    {
        std::vector<OpRec *> mine;
        for (auto &p : g_ops) if (p.second.thread == th && !p.second.line.has("on")) mine.push_back(&p.second);
        std::stable_sort(mine.begin(), mine.end(), [](OpRec *a, OpRec *b) { return a->line.num("t") < b->line.num("t"); });
        for (auto r : mine) {
            sim::sleepUntil(r->line.num("t"));
            run(r->id);
        }
        usersLeft--;
        sim::wakeAll(&usersLeft);
    }
};

void spin(int ms)
{
    QEventLoop l;
    QTimer::singleShot(ms, Qt::PreciseTimer, &l, &QEventLoop::quit);
    l.exec();
}
}

bool Home::event(QEvent *e)
{
    if (e->type() != OpEvent::type()) return QObject::event(e);
    w->run(static_cast<OpEvent *>(e)->id);
    return true;
}

static void runWorld(const Plan &plan, bool away);
void runGrpc(const Plan &plan)
{
    static int argc = 1;
    static char name[] = "vsim";
    static char *argv[] = {name, nullptr};
    QCoreApplication app(argc, argv);
    if (!(plan.find("world") && plan.find("world")->num("away"))) { runWorld(plan, false); return; }
    // the world lives in a thread that is not the application's main thread
    probe("world away from the main thread");
    QThread *t = QThread::create([&] { sim::nameThread("world"); runWorld(plan, true); });
    QObject::connect(t, &QThread::finished, &app, [&] { app.quit(); });
    t->start();
    app.exec();
    t->wait();
}

static void runWorld(const Plan &plan, bool away)
{
    g_mainThread = sim::self();
    qRegisterProtobufTypes();
    World w(plan);
    net::start(plan);
    if (plan.find("world") && plan.find("world")->num("foreign")) {
        ChanInfo ci;
        ci.id = 99; ci.native = false; ci.scheme = "http"; ci.host = "foreign.sim:1"; ci.target = "http://foreign.sim:1";
        g_tokens[ci.host] = "x";
        w.otherThread = QThread::create([&] { w.foreign = w.makeChannel(ci); });
        w.otherThread->start();
        w.otherThread->wait();
    }
    QEventLoop loop;
    w.loop = &loop;
    w.setup();
    std::set<int> ths;
    for (auto &p : g_ops) if (p.second.thread > 0 && p.second.thread != CrossThread && !p.second.line.has("on")) ths.insert(p.second.thread);
    w.usersLeft = int(ths.size());
    for (int t : ths) {
        if (away && t == *ths.begin()) {
            // the application's main thread is one of the users
            QMetaObject::invokeMethod(QCoreApplication::instance(), [&w, t] { w.user(t); }, Qt::QueuedConnection);
        } else if (t % 2) {
            w.threads.push_back(new std::thread([&w, t] { sim::nameThread("user"); w.user(t); }));
        } else {
            w.qthreads.push_back(QThread::create([&w, t] { sim::nameThread("user"); w.user(t); }));
            w.qthreads.back()->start();
        }
    }
    // operations that come right before or right after something from the server
    for (auto &p : g_ops) {
        std::vector<int64_t> a = p.second.line.list("arr");
        if (a.size() == 4 && (p.second.thread == 0 || p.second.thread == CrossThread))
            w.arrivals[std::to_string(a[0]) + "/" + p.second.line.get("arrm")].push_back({p.first, a[1] != 0, a[2], a[3] != 0});
    }
    g_world = &w;
    g_arrivalFocus = plan.find("world") ? uint64_t(plan.find("world")->num("afz")) : 0;
    if (!w.arrivals.empty()) g_onArrival = [](Conn *c, bool end, bool after) { g_world->arrival(c, end, after); };
    std::thread driver([&] {
        sim::nameThread("driver");
        std::vector<OpRec *> mine;
        for (auto &p : g_ops) if ((p.second.thread == 0 || p.second.thread == CrossThread) && !p.second.line.has("on")) mine.push_back(&p.second);
        std::stable_sort(mine.begin(), mine.end(), [](OpRec *a, OpRec *b) { return a->line.num("t") < b->line.num("t"); });
        int64_t last = 0;
        for (auto r : mine) {
            last = std::max(last, r->line.num("t"));
            sim::sleepUntil(r->line.num("t"));
            QCoreApplication::postEvent(w.place(r->id), new OpEvent(r->id));
        }
        for (auto &p : g_ops) last = std::max(last, p.second.line.num("t"));
        int64_t quiet = 8000000000LL, silent = 0;
        for (auto &l : plan.lines) {
            if (l.kind != "beh") continue;
            for (int64_t g : l.list("gaps")) if (g > 2000000000LL) silent += g;
            for (const char *k : {"lat", "endgap"}) if (l.num(k, 0) > 2000000000LL) silent += l.num(k, 0);
        }
        int64_t cap = last + 90000000000LL + silent;
        for (;;) {
            int64_t target = std::max(last, net::lastScheduled()) + quiet;
            if (target > cap) target = cap;
            if (sim::now() >= target) break;
            sim::sleepUntil(target);
        }
        int64_t until = sim::now() + 30000000000LL + silent;
        while (w.usersLeft > 0 && sim::now() < until) sim::blockOn(&w.usersLeft, until);
        QCoreApplication::postEvent(&w, new OpEvent(FinalOp));
    });
    loop.exec();
    sim::stopPreempting();
    if (w.usersLeft > 0) {
        // reported by the oracle; the world cannot be torn down in an orderly way any more
        checkGrpc(plan);
        finishRun();
    }
    w.finalDone = true;
    driver.join();
    for (auto t : w.threads) { t->join(); delete t; }
    for (auto t : w.qthreads) { t->wait(); delete t; }
    for (auto &p : g_ops) {
        OpRec &r = p.second;
        if (r.reply && w.clients[r.client]) {
            int e0 = w.errsOf(r.client);
            vsim::Msg m = r.reply->read<vsim::Msg>();
            hist(Late, r.id, int64_t(digestQt(m)), w.errsOf(r.client) - e0);
        }
    }
    for (auto &e : w.elements) w.deleteElement(e.first);
    bool chansFirst = plan.find("world") && plan.find("world")->num("chansfirst");
    for (auto &c : w.clients) if (c.second && g_homeClients.count(c.first)) w.onHome([&] { w.destroyClient(c.first, true); });
    for (int c : w.homeChans) w.onHome([&] { w.chans.erase(c); });
    if (chansFirst) w.chans.clear();
    for (auto &c : w.clients) if (c.second) w.destroyClient(c.first, true);
    spin(2500);
    w.chans.clear();
    w.retired.clear();
    spin(500);
    new std::shared_ptr<QAbstractGrpcChannel>(w.foreign);   // belongs to a thread that never runs: left alone
    if (w.homeThread) {
        w.onHome([] {});
        w.homeThread->quit();
        w.homeThread->wait();
        for (int i = 0; i < 40 && sim::liveThreads() > (away ? 2 : 1); i++) sim::sleepFor(50000000);     // until the thread itself is gone
        delete w.home;
        delete w.homeThread;
    }
    net::stop();
    int live = sim::liveThreads();
    if (away) live--;
    if (live > 1) violation("C09", "after destroying all clients and channels " + std::to_string(live - 1) + " thread(s) of the library are still running");
    checkGrpc(plan);
}
