// Concurrent encoding, decoding and registration (C11).
#include "sim.h"
#include "msg.h"
#include "qtmsg.h"
#include "rng.h"
#include <memory>
#include <mutex>
#include <thread>
#include <QProtobufSerializer>
#include <QThread>
#include "qprotobufserializerregistry_p.h"
#include "vqt/vqt.qpb.h"

Plan makeCodecPlan(const std::string &profile, uint64_t seed)
{
    Plan p;
    p.scenario = "codec";
    p.profile = profile;
    p.seed = seed;
    Rng r(mix(seed, 0xC0DEC));
    Line l;
    l.kind = "sched";
    static const int sw[] = {0, 20, 100, 300, 600};
    l.set("switch", sw[r.below(5)]);
    static const int pm[] = {0, 8, 30, 120, 500, 2000, 10000};
    int pre = pm[r.below(7)];
    if (pre) l.set("preempt", pre);
    if (r.chance(0.1)) l.set("spurious", 10);
    if (r.chance(0.15)) { l.set("stall", int64_t(1 + r.below(4))); l.set("maxstall", r.range(1, 50) * 1000000); }
    if (r.chance(0.15)) l.set("starve", 1);
    p.lines.push_back(l);
    bool qts = r.chance(0.35);   // messages with fields of Qt types
    bool crowd = r.chance(0.02);
    int n = crowd ? int(66 + r.below(8)) : int(2 + r.below(r.chance(0.3) ? 7 : 3));
    Line c;
    c.kind = "cod";
    c.set("pre", r.chance(0.25) ? int64_t(1 + r.below(3)) : 0);   // done before the threads start: 1 types registered, 2 serializer made, 3 both
    c.set("same", r.chance(0.3) ? 1 : 0);                         // threads use one serializer
    p.lines.push_back(c);
    int64_t uid = 1;
    for (int t = 1; t <= n; t++) {
        Line th;
        th.kind = "th";
        th.set("id", t).set("qt", int64_t(r.below(2)));
        static const char *first[] = {"own", "own", "reg", "reg", "both"};
        th.set("ser", first[r.below(5)]);
        th.set("order", int64_t(r.below(2)));   // serializer before or after the types
        if (qts) th.set("qreg", 1);
        p.lines.push_back(th);
        int k = crowd ? 1 : int(1 + r.below(5));
        for (int i = 0; i < k; i++) {
            Line s;
            s.kind = "step";
            static const char *kinds[] = {"enc", "enc", "enc", "dec", "dec", "dec", "reg", "again", "again", "new", "bad", "get", "fresh", "fresh", "fresh"};
            std::string kind = crowd ? (r.chance(0.7) ? "enc" : r.chance(0.5) ? "again" : "fresh") : kinds[r.below(15)];
            if (qts && r.chance(0.5)) { static const char *q[] = {"qenc", "qenc", "qdec", "qdec", "qreg", "qbad"}; kind = q[r.below(6)]; }
            static const int sz[] = {2, 3, 3, 9, 9, 6, 6, 1, 0, 5};
            s.set("th", t).set("kind", kind).set("uid", uid++).set("size", crowd ? 2 : sz[r.below(10)]).set("x", int64_t(r.below(1000)));
            p.lines.push_back(s);
        }
    }
    return p;
}

namespace {
using namespace QtProtobuf;
struct Result { int step; std::string kind; std::string out; std::string bytes; };
std::mutex resMu;
std::vector<Result> results;

std::string badBytes(const Line &s)
{
    std::string b = wire(makeMsg(s.num("uid"), 1, int(std::max<int64_t>(s.num("size"), 2)), 7));
    Rng r(mix(uint64_t(s.num("uid")), uint64_t(s.num("x"))));
    if (r.below(2)) b.resize(r.below(b.size()));
    else for (int i = 0; i < 3; i++) b[r.below(b.size())] ^= char(1 << r.below(8));
    return b;
}
// Types that nothing else registers, as further generated code would bring them
using Reg = void (*)();
template <class K, class V> void regMap() { qRegisterProtobufMapType<K, V>(); }
template <class K> void regMaps(std::vector<Reg> &v)
{
    v.insert(v.end(), {regMap<K, int32>, regMap<K, int64>, regMap<K, uint32>, regMap<K, uint64>, regMap<K, sint64>,
                       regMap<K, fixed32>, regMap<K, fixed64>, regMap<K, float>, regMap<K, double>, regMap<K, QByteArray>});
}
const std::vector<Reg> &freshTypes()
{
    static std::vector<Reg> v;
    if (v.empty()) {
        regMaps<uint32>(v); regMaps<uint64>(v); regMaps<sint32>(v); regMaps<fixed32>(v);
        regMaps<fixed64>(v); regMaps<sfixed32>(v); regMaps<sfixed64>(v);
    }
    return v;
}
// the caller's own objects only; everything below this line of repository code may be preempted anywhere
std::string act(const Line &s, QAbstractProtobufSerializer *ser, std::string *bytes)
{
    const std::string kind = s.get("kind");
    try {
        if (kind == "enc") {
            std::unique_ptr<vsim::Msg> m;
            { sim::NoPreempt np; m.reset(new vsim::Msg); toQt(makeMsg(s.num("uid"), int32_t(s.num("x")), int(s.num("size")), 3), *m); }
            QByteArray b = m->serialize(ser);
            sim::NoPreempt np;
            *bytes = std::string(b.constData(), size_t(b.size()));
            m.reset();
            return "ok";
        }
        if (kind == "dec" || kind == "bad") {
            QByteArray in;
            std::unique_ptr<vsim::Msg> m;
            {
                sim::NoPreempt np;
                std::string b = kind == "bad" ? badBytes(s) : wire(makeMsg(s.num("uid"), int32_t(s.num("x")), int(s.num("size")), 4));
                in = QByteArray(b.data(), int(b.size()));
                m.reset(new vsim::Msg);
            }
            std::string e = "ok";
            try { m->deserialize(ser, in); }
            catch (std::out_of_range &) { e = "out_of_range"; }
            catch (std::invalid_argument &) { e = "invalid_argument"; }
            sim::NoPreempt np;
            *bytes = canon(fromQt(*m));
            m.reset();
            return e;
        }
        if (kind == "qenc") {
            std::unique_ptr<vqt::Qts> m;
            { sim::NoPreempt np; m.reset(new vqt::Qts); qtsToQt(makeQts(s.num("uid"), s.num("x")), *m); }
            QByteArray b = m->serialize(ser);
            sim::NoPreempt np;
            *bytes = std::string(b.constData(), size_t(b.size()));
            m.reset();
            return "ok";
        }
        if (kind == "qdec" || kind == "qbad") {
            QByteArray in;
            std::unique_ptr<vqt::Qts> m;
            {
                sim::NoPreempt np;
                std::string b;
                makeQts(s.num("uid"), s.num("x")).SerializeToString(&b);
                if (kind == "qbad") {
                    Rng r(mix(uint64_t(s.num("uid")), uint64_t(s.num("x"))));
                    if (r.below(2)) b.resize(r.below(b.size()));
                    else for (int i = 0; i < 3; i++) b[r.below(b.size())] ^= char(1 << r.below(8));
                }
                in = QByteArray(b.data(), int(b.size()));
                m.reset(new vqt::Qts);
            }
            std::string e = "ok";
            try { m->deserialize(ser, in); }
            catch (std::out_of_range &) { e = "out_of_range"; }
            catch (std::invalid_argument &) { e = "invalid_argument"; }
            sim::NoPreempt np;
            *bytes = canonQts(qtsFromQt(*m));
            m.reset();
            return e;
        }
        if (kind == "qreg") { registerQtTypes(); return "ok"; }
        if (kind == "reg") { qRegisterProtobufTypes(); return "ok"; }
        if (kind == "again") {
            // what generated code does to register its types, once more
            switch (s.num("x") % 5) {
            case 0: qRegisterProtobufType<vsim::Leaf>(); break;
            case 1: qRegisterProtobufType<vsim::Node>(); break;
            case 2: qRegisterProtobufMapType<QString, vsim::Leaf>(); break;
            case 3: qRegisterProtobufEnumType<vsim::ColorGadget::Color>(); break;
            default: qRegisterProtobufMapType<QtProtobuf::int32, QString>(); break;
            }
            return "ok";
        }
        if (kind == "fresh") {
            const std::vector<Reg> &f = freshTypes();
            for (int64_t i = 0, n = 1 + s.num("x") % 12; i < n; i++) f[size_t(s.num("uid") * 7 + i) % f.size()]();
            return "ok";
        }
        if (kind == "new") { QProtobufSerializer another; return "ok"; }
        if (kind == "get") {
            auto g = QProtobufSerializerRegistry::instance().getSerializer(QStringLiteral("protobuf"));
            return g ? "ok" : "null";
        }
    } catch (std::exception &e) {
        return std::string("exception: ") + e.what();
    } catch (...) {
        return "exception";
    }
    return "?";
}
}

void runCodec(const Plan &plan)
{
    bool solo = plan.find("solo") != nullptr;
    const Line none;
    const Line &c = plan.find("cod") ? *plan.find("cod") : none;
    std::shared_ptr<QAbstractProtobufSerializer> shared;
    if (c.num("pre") & 1) qRegisterProtobufTypes();
    if (c.num("pre") & 2) QProtobufSerializer s;
    if ((c.num("pre") & 1) && plan.find("th") && plan.find("th")->num("qreg")) registerQtTypes();
    if (c.num("same")) shared.reset(new QProtobufSerializer);
    freshTypes();
    std::vector<std::thread> ths;
    std::vector<QThread *> qths;
    std::map<int, std::vector<std::pair<int, const Line *>>> steps;
    int ix = 0;
    for (auto &l : plan.lines) if (l.kind == "step") steps[int(l.num("th"))].push_back({ix++, &l});
    size_t count = 0;
    for (auto &l : plan.lines) {
        if (l.kind != "th") continue;
        count++;
        const std::vector<std::pair<int, const Line *>> mine = steps[int(l.num("id"))];
        const Line th = l;
        auto body = [=] {
            sim::nameThread("coder");
            std::shared_ptr<QAbstractProtobufSerializer> ser;
            for (int k = 0; k < 2; k++) {
                if ((k == 0) == (th.num("order") == 0)) { qRegisterProtobufTypes(); if (th.num("qreg")) registerQtTypes(); continue; }
                std::string kind = th.get("ser");
                if (shared) ser = shared;
                else if (kind == "own") ser.reset(new QProtobufSerializer);
                else ser = QProtobufSerializerRegistry::instance().getSerializer(QStringLiteral("protobuf"));
                if (kind == "both") ser.reset(new QProtobufSerializer);
            }
            for (auto &s : mine) {
                Result r;
                r.step = s.first;
                r.kind = s.second->get("kind");
                r.out = act(*s.second, ser.get(), &r.bytes);
                sim::NoPreempt np;
                std::lock_guard<std::mutex> g(resMu);
                hist(Note, s.first, int64_t(fnv(r.bytes.data(), r.bytes.size())), 0, r.kind + " " + r.out);
                results.push_back(std::move(r));
            }
        };
        if (solo) { std::thread t(body); t.join(); }
        else if (th.num("qt")) { QThread *q = QThread::create(body); qths.push_back(q); q->start(); }
        else ths.emplace_back(body);
    }
    for (auto &t : ths) t.join();
    for (auto q : qths) { q->wait(); delete q; }
    sim::stopPreempting();
    if (count > 64) probe("more than 64 threads");
    // every result against the reference implementation, then against the same work done alone
    std::vector<const Line *> byIx(size_t(ix), nullptr);
    for (auto &t : steps) for (auto &s : t.second) byIx[size_t(s.first)] = s.second;
    if (results.size() != byIx.size()) violation("C11", "mismatch: " + std::to_string(byIx.size() - results.size()) + " step(s) did not finish");
    QProtobufSerializer alone;
    for (auto &r : results) {
        const Line &s = *byIx[size_t(r.step)];
        if (r.kind[0] == 'q') probe("message of Qt types");
        if (r.kind == "bad" || r.kind == "qbad") {
            std::string b, o = act(s, &alone, &b);
            fired("malformed bytes");
            if (o != r.out || b != r.bytes) violation("C11", "mismatch: decoding malformed bytes gave '" + r.out + "', alone it gives '" + o + "' or other contents");
            continue;
        }
        if (r.out != "ok") { violation("C11", "mismatch: " + r.kind + " failed: " + r.out); continue; }
        if (r.kind == "enc") {
            refsim::Msg want = makeMsg(s.num("uid"), int32_t(s.num("x")), int(s.num("size")), 3), got;
            if (!got.ParseFromString(r.bytes)) violation("C11", "mismatch: encoded bytes are not a message");
            else if (canon(got) != canon(want)) violation("C11", "mismatch: encoded message differs: " + brief(got) + " instead of " + brief(want));
            std::string b;
            act(s, &alone, &b);
            if (b != r.bytes) violation("C11", "mismatch: encoded bytes differ from those of a single thread");
        }
        if (r.kind == "qenc" || r.kind == "qdec") {
            vqt::Qts want;
            qtsToQt(makeQts(s.num("uid"), s.num("x")), want);
            const std::string w = canonQts(qtsFromQt(want));
            if (r.kind == "qenc") {
                refqt::Qts got;
                if (!got.ParseFromString(r.bytes)) violation("C11", "mismatch: encoded bytes are not a message");
                vqt::Qts back;
                qtsToQt(got, back);
                if (canonQts(qtsFromQt(back)) != w) violation("C11", "mismatch: encoded message of Qt types differs");
                std::string b;
                act(s, &alone, &b);
                if (b != r.bytes) violation("C11", "mismatch: encoded bytes differ from those of a single thread");
            } else if (r.bytes != w) violation("C11", "mismatch: decoded message of Qt types differs from the one encoded");
        }
        if (r.kind == "dec" && r.bytes != canon(makeMsg(s.num("uid"), int32_t(s.num("x")), int(s.num("size")), 4)))
            violation("C11", "mismatch: decoded message differs from the one encoded");
    }
}
