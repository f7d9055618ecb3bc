// Loading of serializer plugins with faults (C15).
#include "sim.h"
#include "msg.h"
#include "rng.h"
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include <QProtobufSerializer>
#include <QStringList>
#include "qprotobufserializerregistry_p.h"

namespace {
std::string dir;             // the run's plugin directory
std::string failDlopen;      // file whose loading the system refuses now
int failOpen = 0;            // errno with which the file cannot be opened
std::string failOpenPath;
int dlopens = 0;
}
extern "C" {
void *dlopen(const char *f, int flags)
{
    static void *(*real)(const char *, int) = reinterpret_cast<void *(*)(const char *, int)>(dlsym(RTLD_NEXT, "dlopen"));
    if (f && !dir.empty() && !strncmp(f, dir.c_str(), dir.size())) {
        dlopens++;
        if (!failDlopen.empty() && failDlopen == f) { fired("library refused by the system"); return nullptr; }
        flags &= ~RTLD_NODELETE;   // an unloaded library is really gone, and its path free for another one
    }
    return real(f, flags);
}
int open64(const char *f, int flags, ...)
{
    static int (*real)(const char *, int, ...) = reinterpret_cast<int (*)(const char *, int, ...)>(dlsym(RTLD_NEXT, "open64"));
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (failOpen && f && failOpenPath == f) { fired("plugin file cannot be opened"); errno = failOpen; return -1; }
    return real(f, flags, mode);
}
}

Plan makePluginPlan(const std::string &profile, uint64_t seed)
{
    Plan p;
    p.scenario = "plugin";
    p.profile = profile;
    p.seed = seed;
    Rng r(mix(seed, 0x9106));
    static const char *names[] = {"alpha", "beta", "gamma", "other"};
    // contents a plugin file can have
    static const char *good[] = {"alpha", "beta"};
    static const char *bad[] = {"none", "none", "empty", "text", "short", "noise", "meta", "gamma", "delta", "undef", "plain", "folder", "dangling"};
    for (int i = 0; i < 3; i++) {
        if (r.chance(0.3)) continue;
        Line f;
        f.kind = "file";
        f.set("name", names[i]).set("what", r.chance(0.5) ? (i < 2 ? good[i] : bad[r.below(13)]) : bad[r.below(13)]).set("x", int64_t(r.below(100000)));
        p.lines.push_back(f);
    }
    int n = int(2 + r.below(10));
    for (int i = 0; i < n; i++) {
        Line s;
        s.kind = "plug";
        uint64_t k = r.below(10);
        if (k < 5) {
            s.set("do", "load").set("name", names[r.below(10) < 8 ? r.below(2) : 2 + r.below(2)]);
            static const char *flt[] = {"", "", "", "", "refuse", "EACCES", "EMFILE", "EIO", "ENOMEM"};
            std::string f = flt[r.below(9)];
            if (!f.empty()) s.set("fault", f);
        } else if (k < 8) {
            int w = int(r.below(3));
            bool g = r.chance(0.5);
            s.set("do", "file").set("name", names[w]).set("what", g ? good[w % 2] : bad[r.below(13)]).set("x", int64_t(r.below(100000)));
        } else {
            static const char *pl[] = {"Alpha", "Beta", "Gamma", "Default", "Nothing", "-", "alpha"};
            static const char *id[] = {"protobuf", "protobuf", "text", "xml", "json", "nope", "-"};
            s.set("do", "get").set("plugin", pl[r.below(7)]).set("id", id[r.below(7)]);
        }
        p.lines.push_back(s);
    }
    return p;
}

namespace {
using namespace QtProtobuf;
std::string slurpFile(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
const std::string &lib(const std::string &n)
{
    static std::map<std::string, std::string> cache;
    auto it = cache.find(n);
    if (it == cache.end()) {
        const char *d = getenv("VSIM_PLUGINS");
        it = cache.emplace(n, slurpFile(std::string(d ? d : "build/plugins") + "/lib" + n + ".so")).first;
        if (it->second.empty()) sim::onFatal("unsupported", "plugin " + n + " is missing");
    }
    return it->second;
}
std::string path(const std::string &name) { return dir + "/lib" + name + ".so"; }
// what the file is: name of the good plugin in it, or empty
std::map<std::string, std::string> content;
void place(const std::string &name, const std::string &what, int64_t x)
{
    std::string p = path(name), body;
    // never written in place: a library in use stays what it is
    if (::unlink(p.c_str()) && errno == EISDIR) ::rmdir(p.c_str());
    ::rmdir(p.c_str());
    content[name] = what == "alpha" ? "Alpha" : what == "beta" ? "Beta" : "";
    if (content[name].empty()) fired(("plugin file: " + what).c_str());
    if (what == "none") return;
    if (what == "folder") { ::mkdir(p.c_str(), 0700); return; }
    if (what == "dangling") { if (::symlink((dir + "/nothing").c_str(), p.c_str())) {} return; }
    Rng r(uint64_t(x) + 1);
    if (what == "text") body = "this is not a library\n";
    else if (what == "noise") for (int i = 0; i < 4096; i++) body += char(r.next());
    else if (what == "short") {
        // cut before the section headers: such a file is recognised as damaged and never mapped
        body = lib("alpha");
        size_t sh = 0;
        memcpy(&sh, body.data() + 40, 8);
        body.resize(r.below(sh));
    } else if (what == "meta") {
        // damaged plugin description
        body = lib("alpha");
        size_t at = body.find("QTMETADATA");
        if (at == std::string::npos) sim::onFatal("unsupported", "no plugin description");
        body.replace(at, 10, r.below(2) ? "XTMETADATA" : std::string(10, '\0'));
    } else if (what != "empty") body = lib(what);
    std::ofstream f(p, std::ios::binary);
    f << body;
}
std::vector<std::pair<std::string, std::vector<std::string>>> known = {{"Alpha", {"protobuf", "text"}}, {"Beta", {"protobuf", "xml", "json"}}};
std::set<std::string> loaded;
struct Held { std::shared_ptr<QAbstractProtobufSerializer> s; std::string mark, what; };
std::map<std::string, Held> held;   // serializers the application keeps

void fail(const std::string &t) { violation("C15", t); }
QString q(const std::string &s) { return QString::fromStdString(s == "-" ? "" : s); }

void use(QAbstractProtobufSerializer *s, const std::string &mark, const std::string &what)
{
    vsim::Msg m;
    refsim::Msg want = makeMsg(17, int32_t(g_hist.size()), 3, 9), got;
    toQt(want, m);
    QByteArray b = s->serializeMessage(&m, vsim::Msg::protobufMetaObject);
    std::string bytes(b.constData(), size_t(b.size()));
    if (bytes.compare(0, mark.size(), mark)) { fail(what + " is not that of the plugin"); return; }
    if (!got.ParseFromString(bytes.substr(mark.size())) || canon(got) != canon(want)) fail(what + " encodes wrongly");
    vsim::Msg back;
    std::string w = wire(want);
    try { back.deserialize(s, QByteArray(w.data(), int(w.size()))); } catch (std::exception &) { fail(what + " cannot decode"); return; }
    if (canon(fromQt(back)) != canon(want)) fail(what + " decodes wrongly");
}

void get(const std::string &id, const std::string &plugin, const char *when)
{
    QProtobufSerializerRegistry &reg = QProtobufSerializerRegistry::instance();
    bool expect = false;
    std::string mark;
    if (plugin == "Default") expect = id == "protobuf" || id == "json";
    for (auto &k : known) if (k.first == plugin && loaded.count(plugin)) for (auto &t : k.second) if (t == id) { expect = true; mark = (plugin == "Alpha" ? "alpha:" : "beta:") + id + ":"; }
    std::string what = "the serializer '" + id + "' of '" + plugin + "' " + when;
    for (int form = 0; form < (plugin == "Default" ? 2 : 1); form++) {
        std::shared_ptr<QAbstractProtobufSerializer> s;
        std::string ex;
        try { s = form ? reg.getSerializer(q(id)) : reg.getSerializer(q(id), q(plugin)); }
        catch (std::exception &e) { ex = "exception"; }
        hist(Note, expect, s != nullptr, 0, "get " + plugin + "/" + id + " " + ex);
        if (!expect) {
            if (ex.empty()) fail("asking for " + what + ", which is unknown, raises no exception");
            continue;
        }
        if (!ex.empty()) { fail("asking for " + what + " raises an exception"); continue; }
        if (!s) { fail("asking for " + what + " gives nothing"); continue; }
        if (plugin == "Default" && id == "json") continue;   // left out of this build
        use(s.get(), mark, what);
        auto &h = held[plugin + "/" + id];
        if (!h.s) h = {s, mark, what};
    }
}
void meta(const char *when)
{
    QProtobufSerializerRegistry &reg = QProtobufSerializerRegistry::instance();
    for (std::string n : {"Alpha", "Beta", "Gamma", "Nothing", "-"}) {
        float v = reg.pluginVersion(q(n)), pv = reg.pluginProtobufVersion(q(n));
        int rt = reg.pluginRating(q(n));
        QStringList sl = reg.pluginSerializers(q(n));
        if (!loaded.count(n)) continue;
        bool a = n == "Alpha";
        if (v != (a ? 1.5f : 2.25f) || pv != (a ? 3.5f : 2.5f) || rt != (a ? 7 : 3) || sl != (a ? QStringList{"protobuf", "text"} : QStringList{"protobuf", "xml", "json"}))
            fail("the description of the loaded plugin '" + n + "' is wrong " + when);
    }
}
void all(const char *when)
{
    get("protobuf", "Default", when);
    get("nope", "Default", when);
    for (auto &n : loaded) for (auto &k : known) if (k.first == n) for (auto &t : k.second) get(t, n, when);
    for (std::string n : {"Alpha", "Beta", "Gamma", "Nothing"}) if (!loaded.count(n)) get("protobuf", n, when);
    meta(when);
    for (auto &h : held) use(h.second.s.get(), h.second.mark, h.second.what + ", kept,");
}
}

void runPlugin(const Plan &plan)
{
    const char *t = getenv("VSIM_TMP");
    dir = std::string(t ? t : "/tmp") + "/vsim-plug." + std::to_string(getpid());
    ::mkdir(dir.c_str(), 0700);
    setenv("QT_PROTOBUF_PLUGIN_PATH", dir.c_str(), 1);
    qRegisterProtobufTypes();
    for (auto &l : plan.lines) if (l.kind == "file") place(l.get("name"), l.get("what"), l.num("x"));
    QProtobufSerializerRegistry &reg = QProtobufSerializerRegistry::instance();
    all("at start");
    bool failed = false;
    std::set<std::string> failedNames;
    auto load = [&](const std::string &name, const std::string &fault, const char *when) {
        // a plugin that is loaded already needs its file no more than for its name; what loading it again
        // reports when the file is gone is left open
        std::string is = content[name];
        bool broken = is.empty() || !fault.empty();
        if (fault == "refuse") failDlopen = path(name);
        else if (!fault.empty()) {
            failOpenPath = path(name);
            failOpen = fault == "EACCES" ? EACCES : fault == "EMFILE" ? EMFILE : fault == "EIO" ? EIO : ENOMEM;
        }
        auto met = [] { uint64_t n = 0; for (const char *k : {"library refused by the system", "plugin file cannot be opened"}) { auto it = g_fired.find(k); if (it != g_fired.end()) n += it->second; } return n; };
        uint64_t before = met();
        QString got;
        std::string ex;
        try { got = reg.loadPlugin(q(name)); } catch (std::exception &e) { ex = e.what(); }
        failDlopen.clear();
        failOpen = 0;
        bool injected = met() != before;
        if (!fault.empty() && !injected) broken = is.empty();   // the fault met nothing
        std::string g = got.toStdString();
        hist(Note, broken, injected, 0, "load " + name + " (" + is + ") fault=" + fault + " -> " + g + ex);
        if (!broken) {
            if (g != is) fail("loading the plugin '" + is + "' " + when + " reports '" + g + "'" + (failedNames.count(name) ? " after an earlier failed attempt" : ""));
            else loaded.insert(is);
            if (failedNames.count(name)) probe("plugin loaded after a failed attempt");
        } else {
            failed = true;
            failedNames.insert(name);
            probe("plugin failed to load");
            if (!loaded.empty()) probe("plugin failed to load with another one loaded");
            if (!g.empty() && !loaded.count(g)) fail("loading '" + name + "' cannot succeed but reports '" + g + "'");
        }
    };
    for (auto &l : plan.lines) {
        if (l.kind != "plug") continue;
        std::string d = l.get("do");
        if (d == "file") place(l.get("name"), l.get("what"), l.num("x"));
        else if (d == "load") { load(l.get("name"), l.get("fault"), "later"); all("after a load"); }
        else if (d == "get") get(l.get("id"), l.get("plugin"), "on request");
    }
    // the faults are gone: everything that is there must load
    place("alpha", "alpha", 0);
    place("beta", "beta", 0);
    load("alpha", "", "at the end");
    all("at the end");
    load("beta", "", "at the end");
    all("at the end");
}
