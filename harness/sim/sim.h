// Shared declarations of the simulated world: plan, recorded history, simulated network.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include "core.h"

// ------------------------------------------------------------------------------------------------ plan
struct Line {
    std::string kind;
    std::vector<std::pair<std::string, std::string>> kv;
    bool has(const char *k) const;
    std::string get(const char *k, const std::string &def = "") const;
    int64_t num(const char *k, int64_t def = 0) const;
    std::vector<int64_t> list(const char *k) const;   // comma separated
    Line &set(const char *k, const std::string &v);
    Line &set(const char *k, int64_t v);
    Line &set(const char *k, const std::vector<int64_t> &v);
    std::string text() const;
};
struct Plan {
    std::string scenario;   // "grpc", "codec", "plugin"
    std::string profile;
    uint64_t seed = 0;
    std::vector<Line> lines;
    std::string text() const;
    static Plan parse(const std::string &text);
    const Line *find(const char *kind) const;
};
Plan makePlan(const std::string &profile, uint64_t seed);
sim::SchedConfig schedOf(const Plan &p);

// --------------------------------------------------------------------------------------------- history
enum EvT {
    SubBegin,   // a=op
    SubEnd,     // a=op b=stream identity (0: none returned)
    SubMsg,     // a=op b=digest c=decode errors raised while reading
    SubRet,     // a=op b=digest of the return object
    SubErr,     // a=op b=code s=message
    SubFin,     // a=op
    CallBegin,  // a=op
    CallEnd,    // a=op b=returned something
    CallOk,     // a=op b=digest c=decode errors
    CallErr,    // a=op b=code s=message
    AbortBegin, // a=op of the call or subscription b=op doing it
    AbortEnd,
    AttachBegin,// a=client b=channel
    AttachEnd,  // c=1: refused
    DestroyBegin, // a=client
    DestroyEnd,
    ClientErr,  // a=client b=code s=message
    Post,       // a=conn
    Cancel,     // a=conn
    Arrive,     // a=conn b=bytes arrived so far
    ArriveDone, // a=conn
    End,        // a=conn
    EndDone,    // a=conn
    Late,       // a=op: read after the fact b=digest c=decode errors
    Slow,       // a=op b=ns: the application itself was slow
    QProp,       // a=element b=property c=value
    QPropEnd,
    QMsg,       // a=element b=digest c=digest of returnValue
    QErr,       // a=element b=code
    QEnabled,   // a=element b=value
    QEnabledEnd, // a=element: its handlers have returned
    QDestroy,   // a=element
    QDestroyEnd,
    Final,
    Note,       // s
    ReadVal,    // a=op whose handle was read by another thread b=digest
    RetGone,    // a=op whose return object was destroyed
    Left,       // a=client b=replies c=streams it keeps at the end
    Take,       // a=op b=1: its return object is being written, 0: goes on
    QArgGone    // a=argument of QML elements that was destroyed
};
struct Ev {
    EvT type;
    int64_t t;
    int thread;
    int64_t a, b, c;
    std::string s;
};
extern std::vector<Ev> g_hist;
void hist(EvT type, int64_t a = 0, int64_t b = 0, int64_t c = 0, const std::string &s = std::string());
uint64_t histHash();
std::string histText(const Ev &e);
extern std::map<std::string, uint64_t> g_fired;    // fault kinds actually injected
inline void fired(const char *k) { g_fired[k]++; }
extern std::map<std::string, uint64_t> g_probe;    // rare conditions reached
inline void probe(const char *k) { g_probe[k]++; }

struct Violation { std::string props, text; };
extern std::vector<Violation> g_viol;
// props: space separated property ids this observation violates ("*": all)
void violation(const std::string &props, const std::string &text);

// ---------------------------------------------------------------------------------------------- network
struct EndSpec {
    std::string kind = "open";  // open ok st ne ssl
    int64_t arg = 0;            // grpc status or QNetworkReply::NetworkError
    std::string msg;            // grpc-message / error string
};
extern int64_t g_slowCancel, g_slowCancelTime;      // native: time a cancelled operation may take to give up
class SimReply;
struct Conn {
    int id = 0;
    bool native = false, stream = false;
    std::string host, scheme, path, verb;
    std::map<std::string, std::string> headers;
    std::string body;           // as sent, HTTP/2 framing included
    bool framed = false;        // body is one correctly framed message (always for native)
    std::string arg;            // message bytes
    bool argOk = false;         // parses as a message
    int64_t uid = -1;
    int attempt = 0;
    int64_t postT = 0;
    std::string expectToken;    // credential value at the time of the request
    // what the server does
    std::string bytes;          // everything the server will send, framed
    std::vector<size_t> frameEnd; // of the frames as the server cut them (native: one message each)
    EndSpec end;
    int64_t lat = 0;
    uint64_t cutSeed = 0;
    bool compressed = false;
    bool unread = false;        // the last bytes are announced by the end only
    size_t replyGone = SIZE_MAX;    // when the client's end of it was released (index into the history)
    bool badPayload = false, badFrame = false, partialTail = false;
    std::vector<char> badMsg;   // per message: 0 intact, 1 damaged, 2 cut off or with a field that lies about its length
    bool noMsg = false;            // a unary reply that ends well without a message
    std::vector<uint64_t> digests; // per message, of the unmodified message
    // what has happened
    size_t arrived = 0;
    bool ended = false, cancelled = false;
    int64_t endT = -1, cancelT = -1;
    std::mutex mu;
    SimReply *reply = nullptr;  // HTTP/2
    // native
    std::vector<int64_t> pushT; // when each message was available to the client
    int64_t statusT = -1;
    size_t pushed = 0;          // messages available to the client
    size_t taken = 0;
    bool statusReady = false;
    std::string method() const
    {
        size_t p = path.rfind('/');
        std::string m = p == std::string::npos ? path : path.substr(p + 1);
        if (!m.empty()) m[0] = char(tolower(m[0]));
        return m;
    }
};
extern std::vector<std::unique_ptr<Conn>> g_conns;

namespace net {
void start(const Plan &plan);
void stop();
// called on the client side: a request leaves the client
Conn *open(bool native, const std::string &verb, const std::string &scheme, const std::string &host, const std::string &path,
           const std::map<std::string, std::string> &headers, const std::string &body);
void cancel(Conn *c);           // client cancelled
int64_t lastScheduled();        // virtual time of the last planned server action
}
// something for this connection is about to be (before) or has just been (after) handed to the client
extern void (*g_onArrival)(Conn *c, bool end, bool after);
extern uint64_t g_arrivalFocus; // a change of threads within that many blocks of code after something was handed over
extern bool g_reuseReplies;     // hand out the addresses of deleted replies again at once

// ------------------------------------------------------------------------------------------------ runs
[[noreturn]] void finishRun();       // reports the run and leaves the process
void runGrpc(const Plan &plan);
void checkGrpc(const Plan &plan);
void runCodec(const Plan &plan);
void runPlugin(const Plan &plan);
std::string argWire(const Line &op);  // canonical form of an operation's argument
int statusOfNetError(int err);        // documented mapping, -1 unknown
