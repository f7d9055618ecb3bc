// The simulated network and server, and the HTTP/2 side of its client end (a replacement of QNetworkAccessManager).
#include "sim.h"
#include "msg.h"
#include "world.h"
#include "rng.h"
#include <QCoreApplication>
#include <QEvent>
#include <QNetworkAccessManager>
#include <QNetworkReply>
#include <QNetworkRequest>
#include <QPointer>
#include <QSslError>
#include <QTimer>
#include <sanitizer/asan_interface.h>
#include <thread>
#include <zlib.h>

std::vector<std::unique_ptr<Conn>> g_conns;
bool g_reuseReplies = false;
void (*g_onArrival)(Conn *c, bool end, bool after) = nullptr;
uint64_t g_arrivalFocus = 0;

namespace {
struct Behaviour { Line line; };
std::map<std::string, Line> g_beh;                    // uid/method/attempt -> line
std::map<std::string, int> g_attempts;                // uid/method -> attempts so far
std::map<std::pair<int64_t, uint64_t>, std::function<void()>> g_queue;
uint64_t g_seq = 0;
int64_t g_last = 0;
bool g_stop = false;
std::thread *g_thread = nullptr;
char g_wake;
Line g_defaultUnary, g_defaultStream;

void at(int64_t t, std::function<void()> f)
{
    g_queue[{t, ++g_seq}] = std::move(f);
    if (t > g_last) g_last = t;
    sim::wakeAll(&g_wake);
}

void loop()
{
    sim::nameThread("net");
    while (!g_stop) {
        if (g_queue.empty()) { sim::blockOn(&g_wake); continue; }
        auto it = g_queue.begin();
        if (it->first.first > sim::now()) { sim::blockOn(&g_wake, it->first.first); continue; }
        auto f = std::move(it->second);
        g_queue.erase(it);
        f();
        sim::yield("net");
    }
}

std::string gzip(const std::string &in)
{
    z_stream z;
    memset(&z, 0, sizeof z);
    deflateInit2(&z, Z_DEFAULT_COMPRESSION, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
    std::string out(deflateBound(&z, in.size()) + 32, '\0');
    z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(in.data()));
    z.avail_in = uInt(in.size());
    z.next_out = reinterpret_cast<Bytef *>(&out[0]);
    z.avail_out = uInt(out.size());
    deflate(&z, Z_FINISH);
    out.resize(z.total_out);
    deflateEnd(&z);
    return out;
}

std::string frame(const std::string &payload, int64_t lenOverride = -1)
{
    uint64_t n = lenOverride >= 0 ? uint64_t(lenOverride) : payload.size();
    std::string f(1, '\0');
    for (int s = 24; s >= 0; s -= 8) f += char((n >> s) & 0xff);
    return f + payload;
}

std::string varint(uint64_t v)
{
    std::string s;
    do { unsigned char b = v & 0x7f; v >>= 7; s += char(v ? b | 0x80 : b); } while (v);
    return s;
}

// deliberately malformed (or unusual) payloads
std::string mutate(const std::string &payload, int kind, Rng &r)
{
    std::string p = payload;
    switch (kind) {
    case 1: // truncated
        if (!p.empty()) p.resize(r.below(p.size()));
        return p;
    case 2: // bytes changed
        for (int i = int(1 + r.below(4)); i > 0 && !p.empty(); i--) p[r.below(p.size())] = char(r.next());
        return p;
    case 3: // noise
        p.assign(1 + r.below(60), '\0');
        for (auto &c : p) c = char(r.next());
        return p;
    case 4: { // a length-delimited field that lies about its length
        static const uint64_t lens[] = {1, 5, 100, 0x7f, 0x80, 0x3fff, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0xfffffffbULL, 0xfffffff0ULL};
        static const int fields[] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 25, 26, 27, 28, 29, 30, 31, 33, 36, 39, 42, 44, 99};
        int f = fields[r.below(23)];
        p += varint(uint64_t(f) << 3 | 2) + varint(lens[r.below(11)]);
        for (int i = int(r.below(6)); i > 0; i--) p += char(r.next());
        return p;
    }
    case 5: // varint that never ends / is too long
        p += varint(uint64_t(r.below(2) ? 1 : 45) << 3 | 0);
        p += std::string(1 + r.below(14), char(0xff));
        if (r.below(2)) p += '\1';
        return p;
    case 6: // fixed size field cut off
        p += varint(uint64_t(r.below(2) ? 17 : 16) << 3 | (r.below(2) ? 1 : 5));
        p += std::string(r.below(4), 'x');
        return p;
    case 7: { // nesting up to 100 levels, then a lie or not
        int depth = int(1 + r.below(100));
        std::string n = varint(1 << 3) + varint(7);
        if (r.below(2)) n += varint(3 << 3 | 2) + varint(200);
        for (int i = 0; i < depth; i++) n = varint(2 << 3 | 2) + varint(n.size()) + n;
        p += varint(31 << 3 | 2) + varint(n.size()) + n;
        return p;
    }
    case 8: { // map entries with lying or odd contents
        std::string e;
        int k = int(r.below(5));
        if (k == 0) e = varint(1 << 3) ;
        if (k == 1) e = varint(2 << 3 | 2) + varint(50) + "abc";
        if (k == 2) e = varint(7 << 3 | 2) + varint(1) + "z" + varint(1 << 3) + varint(3);
        if (k == 3) e = std::string(1, char(0xff));
        if (k == 4) e = varint(1 << 3) + varint(3);
        static const int f[] = {11, 12, 30, 39, 40, 41, 42, 43};
        p += varint(uint64_t(f[r.below(8)]) << 3 | 2) + varint(e.size() + (r.below(3) ? 0 : r.below(4))) + e;
        return p;
    }
    case 9: { // wrong wire type for a known field
        int f = int(1 + r.below(44));
        p += varint(uint64_t(f) << 3 | r.below(8));
        for (int i = int(r.below(10)); i > 0; i--) p += char(r.next());
        return p;
    }
    case 10: // field number zero or out of range
        p += r.below(2) ? std::string(1, '\0') : varint(0xffffffffULL);
        return p;
    }
    return p;
}

class NetEvent : public QEvent {
public:
    enum Kind { Data, Finish, Ssl };
    static QEvent::Type type() { return QEvent::Type(QEvent::User + 77); }
    NetEvent(Kind k, const QByteArray &d = QByteArray()) : QEvent(type()), kind(k), data(d) {}
    Kind kind;
    QByteArray data;
};
}

class SimReply : public QNetworkReply {
public:
    SimReply(QNetworkAccessManager *m, const QNetworkRequest &req, QNetworkAccessManager::Operation op, Conn *c)
        : QNetworkReply(m), manager(m), conn(c)
    {
        setRequest(req);
        setUrl(req.url());
        setOperation(op);
        QIODevice::open(QIODevice::ReadOnly | QIODevice::Unbuffered);
        c->reply = this;
#if QT_VERSION >= QT_VERSION_CHECK(5, 15, 0)
        if (req.transferTimeout() > 0) {
            timer = new QTimer(this);
            timer->setSingleShot(true);
            QObject::connect(timer, &QTimer::timeout, this, [this] { abort(); });
            timer->start(req.transferTimeout());
        }
#endif
    }
    ~SimReply() override
    {
        std::lock_guard<std::mutex> l(conn->mu);
        conn->reply = nullptr;
        conn->replyGone = g_hist.size();
        net::cancel(conn);
    }
    void abort() override
    {
        if (isFinished() || closing) return;
        closing = true;
        net::cancel(conn);
        finishWith(QNetworkReply::OperationCanceledError, QStringLiteral("Operation canceled"));
    }
    void close() override
    {
        if (!isFinished()) net::cancel(conn);
        QNetworkReply::close();
    }
    qint64 bytesAvailable() const override { return QNetworkReply::bytesAvailable() + buf.size(); }
    bool isSequential() const override { return true; }
    void ignoreSslErrors() override { sslIgnored = true; }

    static void *operator new(size_t n)
    {
        if (g_reuseReplies && !pool().empty()) {
            void *p = pool().back();
            pool().pop_back();
            ASAN_UNPOISON_MEMORY_REGION(p, n);
            probe("reply address reused");
            return p;
        }
        return ::operator new(n);
    }
    static void operator delete(void *p)
    {
        if (g_reuseReplies) {
            ASAN_POISON_MEMORY_REGION(p, sizeof(SimReply));
            pool().push_back(p);
            return;
        }
        ::operator delete(p);
    }

protected:
    static std::vector<void *> &pool() { static std::vector<void *> p; return p; }
    qint64 readData(char *data, qint64 max) override
    {
        if (buf.isEmpty()) return isFinished() ? -1 : 0;
        qint64 n = qMin<qint64>(max, buf.size());
        memcpy(data, buf.constData(), size_t(n));
        buf.remove(0, int(n));
        return n;
    }
    bool event(QEvent *e) override
    {
        if (e->type() != NetEvent::type()) return QNetworkReply::event(e);
        auto ne = static_cast<NetEvent *>(e);
        sim::focus(g_arrivalFocus);
        if (isFinished() || closing || conn->cancelled) return true;
        QPointer<SimReply> guard(this);
        Conn *c = conn;
        if (ne->kind == NetEvent::Data) {
            if (timer) timer->start();
            if (c->compressed) setRawHeader("grpc-encoding", "gzip");
            buf += ne->data;
            if (c->unread && c->arrived + size_t(ne->data.size()) == c->bytes.size()) {
                held = ne->data.size();
                return true;
            }
            c->arrived += size_t(ne->data.size());
            hist(Arrive, c->id, int64_t(c->arrived));
            headers();
            if (guard) emit readyRead();
            if (guard) progress(false);
            hist(ArriveDone, c->id);
        } else if (ne->kind == NetEvent::Ssl) {
            fired("ssl errors");
            c->ended = true;
            c->endT = sim::now();
            hist(End, c->id);
            QList<QSslError> errs{QSslError(QSslError::SelfSignedCertificate)};
            emit sslErrors(errs);
            if (guard && !isFinished() && !closing && !sslIgnored) {
                closing = true;
                finishWith(QNetworkReply::SslHandshakeFailedError, QStringLiteral("SSL handshake failed"));
            }
            hist(EndDone, c->id);
        } else {
            finish();
        }
        return true;
    }
    // as Qt does: the headers once, before the first data; progress at most every 100 ms
    void headers()
    {
        if (announced) return;
        announced = true;
        emit metaDataChanged();
    }
    void progress(bool last)
    {
        if (!last && lastProgress >= 0 && sim::now() - lastProgress < 100000000) return;
        lastProgress = sim::now();
        emit downloadProgress(qint64(conn->arrived), last ? qint64(conn->arrived) : -1);
    }
    void finish()
    {
        Conn *c = conn;
        closing = true;
        c->ended = true;
        c->endT = sim::now();
        const EndSpec &e = c->end;
        bool heldBack = held > 0;
        if (heldBack) {
            fired("data with the end");
            c->arrived += size_t(held);
            hist(Arrive, c->id, int64_t(c->arrived));
        }
        hist(End, c->id);
        if (e.kind == "ne") {
            fired(e.arg == QNetworkReply::RemoteHostClosedError ? "remote host closed" : "network error");
            finishWith(QNetworkReply::NetworkError(e.arg), QString::fromStdString(e.msg));
        } else {
            setAttribute(QNetworkRequest::HttpStatusCodeAttribute, 200);
            setRawHeader("content-type", "application/grpc");
            setRawHeader("grpc-status", QByteArray::number(int(e.kind == "st" ? e.arg : 0)));
            if (e.kind == "st") {
                fired("server status");
                QByteArray text;
                for (unsigned char ch : e.msg) {
                    if (ch >= 0x20 && ch < 0x7f && ch != '%') { text += char(ch); continue; }
                    static const char hex[] = "0123456789ABCDEF";
                    text += '%';
                    text += hex[ch >> 4];
                    text += hex[ch & 15];
                }
                setRawHeader("grpc-message", text);
            }
            finishWith(QNetworkReply::NoError, QString());
        }
        if (heldBack) hist(ArriveDone, c->id);
        hist(EndDone, c->id);
    }
    void finishWith(QNetworkReply::NetworkError code, const QString &text)
    {
        QPointer<SimReply> guard(this);
        QPointer<QNetworkAccessManager> m(manager);
        if (timer) timer->stop();
        if (code == QNetworkReply::NoError) headers();
        if (!guard) return;
        if (lastProgress >= 0 && code == QNetworkReply::NoError) progress(true);
        if (!guard) return;
        if (code != QNetworkReply::NoError) {
            setError(code, text);
            emit errorOccurred(code);
            if (!guard) return;
        }
        setFinished(true);
        emit readChannelFinished();
        if (!guard) return;
        emit finished();
        if (guard && m) emit m->finished(this);
    }
    QNetworkAccessManager *manager;
    Conn *conn;
    QByteArray buf;
    QTimer *timer = nullptr;
    bool closing = false, sslIgnored = false, announced = false;
    int64_t lastProgress = -1;
    int held = 0;
};

// --------------------------------------------------------------------------------------------- server
namespace net {
void cancel(Conn *c)
{
    if (c->ended || c->cancelled) return;
    c->cancelled = true;
    c->cancelT = sim::now();
    hist(Cancel, c->id);
    sim::wakeAll(c);
}
int64_t lastScheduled() { return g_last; }

void start(const Plan &plan)
{
    for (auto &l : plan.lines)
        if (l.kind == "beh") g_beh[l.get("uid") + "/" + l.get("m") + "/" + l.get("att", "0")] = l;
    g_defaultUnary.set("lat", 1000000).set("sizes", "2").set("end", "ok");
    g_defaultStream.set("lat", 1000000).set("end", "open");
    g_thread = new std::thread(loop);
}
void stop()
{
    g_stop = true;
    sim::wakeAll(&g_wake);
    g_thread->join();
    delete g_thread;
    g_thread = nullptr;
}

Conn *open(bool native, const std::string &verb, const std::string &scheme, const std::string &host, const std::string &path,
           const std::map<std::string, std::string> &headers, const std::string &body)
{
    g_conns.emplace_back(new Conn);
    Conn *c = g_conns.back().get();
    c->id = int(g_conns.size() - 1);
    c->native = native;
    c->verb = verb;
    c->scheme = scheme;
    c->host = host;
    c->path = path;
    c->headers = headers;
    c->body = body;
    c->postT = sim::now();
    c->expectToken = g_tokens[host];
    return c;
}
}

namespace {
// texts that do not fit into a word of a plan
std::string statusText(const std::string &s)
{
    if (s == "@utf8") return "n\xc3\xb6 \xe2\x82\xac \xf0\x9f\x98\x80!";
    if (s == "@percent") return "100% sure, 50%25 not %41";
    if (s == "@lines") return "first line\nsecond\tline\r\n";
    if (s == "@long") { std::string t; for (int i = 0; i < 700; i++) t += "part " + std::to_string(i) + ", "; return t; }
    return s;
}
}

// fills in what the server will do, once the request's message is known
void serve(Conn *c)
{
    sim::NoPreempt np;
    if (c->native) {
        c->framed = true;
        c->arg = c->body;
    } else if (c->body.size() >= 5) {
        const unsigned char *b = reinterpret_cast<const unsigned char *>(c->body.data());
        uint64_t n = uint64_t(b[1]) << 24 | b[2] << 16 | b[3] << 8 | b[4];
        c->framed = b[0] == 0 && n == c->body.size() - 5;
        c->arg = c->body.substr(5);
    }
    refsim::Msg m;
    c->argOk = m.ParseFromString(c->arg);
    c->uid = !c->argOk ? -1 : m.uid() < 0 ? -m.uid() : m.uid() * 8 + m.seq();   // negative: see makeMsg, size 8
    if (c->argOk && m.uid() < 0 && m.text() == "twin" && m.blob().size() == 12 && m.blob()[4] != '@') c->uid++;
    std::string key = std::to_string(c->uid) + "/" + c->method();
    c->attempt = g_attempts[key]++;
    c->stream = c->method() == "watch" || c->method() == "feed";
    hist(Post, c->id, c->uid, c->attempt, c->method());
    if (c->postT > g_last) g_last = c->postT;

    auto it = g_beh.find(key + "/" + std::to_string(c->attempt));
    const Line &b = it != g_beh.end() ? it->second : c->stream ? g_defaultStream : g_defaultUnary;
    c->lat = b.num("lat", 1000000);
    c->cutSeed = uint64_t(b.num("cutseed", 1));
    std::vector<int64_t> sizes = b.list("sizes"), gaps = b.list("gaps"), bad = b.list("bad"), badk = b.list("badk"), shapes = b.list("shape");
    uint64_t salt = uint64_t(b.num("salt", 0));
    for (int64_t i = b.num("burst", 0); i > 0; i--) sizes.push_back(1 + int64_t(i % 7 == 0));   // many small messages
    if (b.num("burst", 0)) fired("burst of messages");
    Rng r(mix(c->cutSeed, 99));
    auto enc = c->headers.find("grpc-accept-encoding");
    bool gz = !c->native && b.num("gz", 0) && enc != c->headers.end() && enc->second.find("gzip") != std::string::npos;
    std::vector<int64_t> when;
    int64_t t = c->postT + c->lat;
    size_t base = 0;
    for (size_t i = 0; i < sizes.size(); i++) {
        t += i < gaps.size() ? gaps[i] : 0;
        when.push_back(t);
        // a server may well send the same message twice in a row, or the same one on every connection
        bool same = i > 0 && (uint64_t(b.num("same", 0)) >> (i % 60) & 1);
        if (!same) base = i;
        else fired("message repeated");
        bool always = c->stream && b.num("const", 0);
        refsim::Msg rm = always ? makeMsg(c->uid, 50, int(b.num("const")), 1) : makeMsg(c->uid, c->attempt * 10000 + int(base), int(sizes[base]), salt);
        std::string p = wire(rm);
        if (i < shapes.size() && shapes[i]) { p = reshape(p, mix(uint64_t(shapes[i]), salt)); fired("unusual encoding"); }
        c->digests.push_back(digest(rm));
        char isBad = 0;
        int64_t lenOverride = -1;
        for (size_t k = 0; k < bad.size(); k++) {
            if (size_t(bad[k]) != i) continue;
            int kind = k < badk.size() ? int(badk[k]) : 2;
            isBad = isBad || (kind != 1 && kind != 4) ? 1 : 2;
            if (kind < 20) { p = mutate(p, kind, r); c->badPayload = true; }
            else if (!c->native) {
                c->badFrame = true;
                static const int64_t d[] = {1, 2, 5, 100, 100000};
                if (kind == 20) lenOverride = int64_t(p.size()) + d[r.below(5)];
                if (kind == 21) lenOverride = p.empty() ? 3 : int64_t(r.below(p.size()));
                if (kind == 22) lenOverride = 0x7fffffffLL - int64_t(r.below(8));
                if (kind == 23) lenOverride = 0x80000000LL + int64_t(r.below(0x7fffffff));
                if (kind == 24) lenOverride = 0xffffffffLL - int64_t(r.below(8));
            }
        }
        c->badMsg.push_back(isBad);
        if (gz && !isBad) {
            // the server takes the client at its word
            fired("compressed message");
            c->compressed = true;
            std::string f = frame(gzip(p));
            f[0] = 1;
            c->bytes += f;
        } else c->bytes += frame(p, lenOverride);
        c->frameEnd.push_back(c->bytes.size());
    }
    int64_t tail = b.num("tail", 0);
    std::string kind = b.get("end", "open");
    if (tail > 0 && !c->native) {
        refsim::Msg rm = makeMsg(c->uid, c->attempt * 10000 + 9999, 3, salt + 1);
        std::string f = frame(wire(rm));
        c->partialTail = true;
        c->bytes += f.substr(0, std::min<size_t>(size_t(tail), f.size() - 1));
        when.push_back(t);
        c->frameEnd.push_back(c->bytes.size());
    }
    c->end.kind = kind;
    c->end.arg = b.num("endarg", 0);
    c->end.msg = statusText(b.get("endmsg", ""));
    c->unread = b.num("unread", 0) && !c->native && (kind == "ok" || kind == "st" || kind == "ne");
    int64_t endT = t + b.num("endgap", 0);
    if (!c->stream && kind == "ok" && sizes.empty()) {
        fired("reply without a message");
        if (c->native) { c->end.kind = "st"; c->end.arg = 12; c->end.msg = "No message returned for unary request"; }   // as libgrpc++ has it
        else c->noMsg = true;
    }
    if (c->native) {
        if (kind == "ne" || kind == "ssl") { c->end.kind = "st"; c->end.arg = 14; c->end.msg = "connection-lost"; }
        for (size_t i = 0; i < c->frameEnd.size(); i++)
            at(when[i], [c, i] { c->pushed = i + 1; c->pushT.push_back(sim::now()); sim::wakeAll(c); sim::wakeAll(&g_arrivals); });
        if (kind != "open") at(endT, [c] { c->statusReady = true; c->statusT = sim::now(); sim::wakeAll(c); });
        return;
    }
    // cut the bytes into deliveries
    std::vector<size_t> cuts;
    int mode = int(b.num("cut", 0));
    size_t n = c->bytes.size();
    std::set<size_t> cs;
    size_t begin = 0;
    for (size_t i = 0; i < c->frameEnd.size(); i++) {
        size_t e = c->frameEnd[i];
        if (mode == 0) cs.insert(e);
        if (mode == 2) { cs.insert(e); for (int k = int(r.below(4)); k > 0; k--) cs.insert(begin + r.below(e - begin + 1)); }
        if (mode == 3) { if (r.below(2)) cs.insert(e); for (int k = int(1 + r.below(3)); k > 0; k--) cs.insert(begin + r.below(7)); if (r.below(3) == 0) cs.insert(begin + r.below(e - begin + 1)); }
        if (mode == 4) for (size_t k = begin; k <= std::min(e, begin + 40); k++) cs.insert(k);
        if (mode == 5) { if (r.below(3) == 0) cs.insert(e); if (e > begin + 1) { cs.insert(e - 1); } }
        begin = e;
    }
    cs.erase(0);
    if (n) cs.insert(n);
    for (auto x : cs) if (x <= n) cuts.push_back(x);
    int64_t prev = 0;
    size_t off = 0, fi = 0;
    int64_t jitterMax = b.num("jit", 200000);
    for (size_t x : cuts) {
        while (fi + 1 < c->frameEnd.size() && c->frameEnd[fi] < x) fi++;
        int64_t tt = std::max(prev, when[fi]);
        bool frameInside = x != c->frameEnd[fi];
        if (frameInside || off != (fi ? c->frameEnd[fi - 1] : 0)) tt += int64_t(r.below(uint64_t(jitterMax) + 1));
        prev = tt;
        QByteArray data(c->bytes.data() + off, int(x - off));
        at(tt, [c, data, frameInside] {
            std::lock_guard<std::mutex> l(c->mu);
            if (!c->reply) return;
            if (frameInside) fired("message split");
            sim::wakeAll(&g_arrivals);
            if (g_onArrival) g_onArrival(c, false, false);
            QCoreApplication::postEvent(c->reply, new NetEvent(NetEvent::Data, data));
            if (g_onArrival) g_onArrival(c, false, true);
        });
        off = x;
    }
    if (kind != "open") {
        bool ssl = kind == "ssl";
        at(std::max(endT, prev), [c, ssl] {
            std::lock_guard<std::mutex> l(c->mu);
            if (!c->reply) return;
            if (g_onArrival) g_onArrival(c, true, false);
            QCoreApplication::postEvent(c->reply, new NetEvent(ssl ? NetEvent::Ssl : NetEvent::Finish));
            if (g_onArrival) g_onArrival(c, true, true);
        });
    } else {
        fired(c->stream ? "server keeps stream open" : "server never answers");
    }
}

// --------------------------------------------------------------- replacement of QNetworkAccessManager
class SimNam : public QNetworkAccessManager {
public:
    ~SimNam() override;
};
SimNam::~SimNam() {}
extern "C" void *simNamVtable[] __asm__("_ZTV6SimNam");

namespace {
QNetworkReply *send(QNetworkAccessManager *m, const char *verb, QNetworkAccessManager::Operation op, const QNetworkRequest &req, const QByteArray &body)
{
    std::map<std::string, std::string> h;
    for (auto &k : req.rawHeaderList()) h[k.toLower().toStdString()] = req.rawHeader(k).toStdString();
    QUrl u = req.url();
    std::string host = u.host().toStdString() + (u.port() >= 0 ? ":" + std::to_string(u.port()) : "");
    bool h2 = req.attribute(QNetworkRequest::Http2DirectAttribute).toBool() || req.attribute(QNetworkRequest::HTTP2AllowedAttribute).toBool();
    h[":http2"] = h2 ? "1" : "0";
    h[":ssl"] = std::to_string(req.sslConfiguration().peerVerifyDepth()) + "/" + std::to_string(int(req.sslConfiguration().protocol()));
    Conn *c = net::open(false, verb, u.scheme().toStdString(), host, u.path().toStdString(), h, body.toStdString());
    auto r = new SimReply(m, req, op, c);
    serve(c);
    return r;
}
}

QNetworkAccessManager::QNetworkAccessManager(QObject *parent) : QObject(parent)
{
    *reinterpret_cast<void ***>(this) = simNamVtable + 2;
}
QNetworkAccessManager::~QNetworkAccessManager()
{
    auto kids = children();
    for (auto k : kids) delete k;
}
QNetworkReply *QNetworkAccessManager::post(const QNetworkRequest &r, const QByteArray &d) { return send(this, "POST", PostOperation, r, d); }
QNetworkReply *QNetworkAccessManager::post(const QNetworkRequest &r, QIODevice *d) { return send(this, "POST", PostOperation, r, d ? d->readAll() : QByteArray()); }
QNetworkReply *QNetworkAccessManager::put(const QNetworkRequest &r, const QByteArray &d) { return send(this, "PUT", PutOperation, r, d); }
QNetworkReply *QNetworkAccessManager::put(const QNetworkRequest &r, QIODevice *d) { return send(this, "PUT", PutOperation, r, d ? d->readAll() : QByteArray()); }
QNetworkReply *QNetworkAccessManager::get(const QNetworkRequest &r) { return send(this, "GET", GetOperation, r, QByteArray()); }
QNetworkReply *QNetworkAccessManager::sendCustomRequest(const QNetworkRequest &r, const QByteArray &v, const QByteArray &d) { return send(this, v.constData(), CustomOperation, r, d); }
QNetworkReply *QNetworkAccessManager::sendCustomRequest(const QNetworkRequest &r, const QByteArray &v, QIODevice *d) { return send(this, v.constData(), CustomOperation, r, d ? d->readAll() : QByteArray()); }
#if QT_VERSION >= QT_VERSION_CHECK(5, 15, 0)
void QNetworkAccessManager::setTransferTimeout(int) {}
#endif
void QNetworkAccessManager::connectToHost(const QString &, quint16) {}
void QNetworkAccessManager::connectToHostEncrypted(const QString &, quint16, const QSslConfiguration &) {}
void QNetworkAccessManager::setRedirectPolicy(QNetworkRequest::RedirectPolicy) {}
void QNetworkAccessManager::setProxy(const QNetworkProxy &) {}
void QNetworkAccessManager::clearAccessCache() {}
void QNetworkAccessManager::clearConnectionCache() {}

int statusOfNetError(int err)
{
    // the documented mapping of transport failures to gRPC status codes
    static const std::map<int, int> m = {
        {QNetworkReply::ConnectionRefusedError, 14}, {QNetworkReply::RemoteHostClosedError, 14}, {QNetworkReply::HostNotFoundError, 14},
        {QNetworkReply::TimeoutError, 4}, {QNetworkReply::OperationCanceledError, 14}, {QNetworkReply::SslHandshakeFailedError, 7},
        {QNetworkReply::TemporaryNetworkFailureError, 2}, {QNetworkReply::NetworkSessionFailedError, 14},
        {QNetworkReply::BackgroundRequestNotAllowedError, 2}, {QNetworkReply::TooManyRedirectsError, 14}, {QNetworkReply::InsecureRedirectError, 7},
        {QNetworkReply::UnknownNetworkError, 2}, {QNetworkReply::ProxyConnectionRefusedError, 14}, {QNetworkReply::ProxyConnectionClosedError, 14},
        {QNetworkReply::ProxyNotFoundError, 14}, {QNetworkReply::ProxyTimeoutError, 4}, {QNetworkReply::ProxyAuthenticationRequiredError, 16},
        {QNetworkReply::UnknownProxyError, 2}, {QNetworkReply::ContentAccessDenied, 7}, {QNetworkReply::ContentOperationNotPermittedError, 7},
        {QNetworkReply::ContentNotFoundError, 5}, {QNetworkReply::AuthenticationRequiredError, 7}, {QNetworkReply::ContentReSendError, 15},
        {QNetworkReply::ContentConflictError, 3}, {QNetworkReply::ContentGoneError, 15}, {QNetworkReply::UnknownContentError, 2},
        {QNetworkReply::ProtocolUnknownError, 2}, {QNetworkReply::ProtocolInvalidOperationError, 12}, {QNetworkReply::ProtocolFailure, 2},
        {QNetworkReply::InternalServerError, 13}, {QNetworkReply::OperationNotImplementedError, 12}, {QNetworkReply::ServiceUnavailableError, 14},
        {QNetworkReply::UnknownServerError, 2}};
    auto i = m.find(err);
    return i == m.end() ? -1 : i->second;
}
