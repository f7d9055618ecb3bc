#pragma once
#include "sim.h"
#include "msg.h"
#include <QGrpcCallReply>
#include <QGrpcStream>
#include <QObject>
#include <QPointer>
#include <QThread>
#include <thread>
#include "vsim_grpc.qpb.h"
#include "deep_grpc.qpb.h"

struct OpRec {
    Line line;
    int id = -1, client = -1, thread = 0;
    std::string kind, method;
    int64_t uid = -1;
    bool begun = false, ended = false;
    int props = 0, msgs = 0, errs = 0, fins = 0, outs = 0;
    QtProtobuf::QGrpcStreamShared stream;
    QtProtobuf::QGrpcCallReplyShared reply;
    vsim::Msg *ret = nullptr;
    QObject *ctx = nullptr;
};
extern std::map<int, OpRec> g_ops;
extern std::map<std::string, std::string> g_tokens;   // host -> credential value now
struct ChanInfo {
    int id;
    bool native;
    std::string scheme, host, target;
    int cred = 0;                                // kind of call credentials
    int64_t user = 0, password = 0;
    bool tokens = true;
    std::map<std::string, std::string> headers;  // what fixed credentials add to each request
    std::string ssl;
};
extern std::set<int> g_deepClients;          // clients of a service of the same name in another package
extern std::set<int> g_auxClients;           // clients of the second service
extern std::map<int, ChanInfo> g_chans;
extern int g_mainThread;                // where the world's clients live
extern int g_homeThread;                // where the clients with a thread of their own live
extern std::set<int> g_homeClients;
inline int homeOf(int client) { return g_homeClients.count(client) ? g_homeThread : g_mainThread; }
extern char g_arrivals;       // woken when data arrives or a message is announced
extern std::set<std::pair<std::string, int64_t>> g_qmlKeys;   // subscriptions the QML elements may make
