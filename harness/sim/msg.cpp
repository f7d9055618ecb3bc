#include "core.h"
#include <algorithm>
#include <map>
#include <set>
#include "msg.h"
#include "rng.h"
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>

namespace {
std::string rndText(Rng &r, int n)
{
    static const char *alphabet[] = {"a", "b", "Z", "0", " ", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\n", "\"", "%"};
    std::string s;
    for (int i = 0; i < n; i++) s += alphabet[r.below(11)];
    return s;
}
std::string rndBytes(Rng &r, size_t n)
{
    std::string s(n, '\0');
    for (size_t i = 0; i < n; i++) s[i] = char(r.below(4) ? r.next() : 0);
    return s;
}
int64_t edge(Rng &r)
{
    static const int64_t e[] = {0, 1, -1, 127, 128, 255, 256, 16383, 16384, 2147483647LL, -2147483648LL, 4294967295LL,
                                9223372036854775807LL, -9223372036854775807LL - 1, 300, -300};
    return r.below(3) ? e[r.below(16)] : int64_t(r.next() >> r.below(60));
}
void fillLeaf(Rng &r, refsim::Leaf *l)
{
    l->set_a(int32_t(edge(r)));
    l->set_s(rndText(r, int(r.below(6))));
    for (int i = int(r.below(4)); i > 0; i--) l->add_us(uint32_t(edge(r)));
}
void fillNode(Rng &r, refsim::Node *n, int depth)
{
    n->set_depth(depth);
    if (r.below(2)) n->set_tag(rndBytes(r, r.below(5)));
    if (depth <= 0) return;
    int kids = 1 + int(r.below(depth > 3 ? 1 : 2));
    for (int i = 0; i < kids; i++) fillNode(r, n->add_kids(), depth - 1);
}
}

refsim::Msg makeMsg(int64_t uid, int32_t seq, int size, uint64_t salt)
{
    refsim::Msg m;
    if (size == 0) return m;
    m.set_uid(uid);
    m.set_seq(seq);
    Rng r(mix(mix(uint64_t(uid), uint64_t(uint32_t(seq))), salt * 8 + unsigned(size)));
    if (size == 1) return m;
    if (size == 8) {
        // same length and same contents, zero bytes included, for all identities
        m.set_uid(-(uid * 8 + seq));
        m.set_seq(0);
        m.set_text("the same for all");
        m.set_blob(std::string("a\0b\0\0\xff", 6));
        m.set_x64(uint64_t(7) << 40);
        return m;
    }
    if (size == 10 || size == 11) {
        // twins: an even and the next identity differ, but have the same length and a common hash (31*h+c) or checksum (CRC-16)
        int64_t full = uid * 8 + seq;
        m.set_uid(-(full & ~int64_t(1)));
        m.set_seq(0);
        m.set_text("twin");
        std::string b = "hash@@@@hash";
        if (full & 1) {
            if (size == 10) { b[4] = char(b[4] + 1); b[5] = char(b[5] - 31); }
            else { b[4] ^= 0x11; b[5] ^= 0x08; b[6] ^= 0x01; }
        }
        m.set_blob(b);
        return m;
    }
    m.set_text(rndText(r, int(r.below(12))));
    m.set_u32(uint32_t(edge(r)));
    m.set_s64(edge(r));
    if (size == 2) return m;
    if (size == 4) { m.set_blob(rndBytes(r, 20000 + r.below(60000))); return m; }
    if (size == 7) { m.set_blob(rndBytes(r, 1200000 + r.below(1000000))); return m; }
    if (size == 12) { m.set_blob(rndBytes(r, 4200000 + r.below(1500000))); return m; }
    if (size == 5) {
        // total lengths around the byte boundaries of the frame length
        static const int want[] = {127, 128, 250, 251, 255, 256, 257, 261, 511, 512, 4096, 65530, 65535, 65536, 65541};
        size_t target = size_t(want[r.below(15)]);
        m.Clear();
        m.set_uid(uid);
        m.set_seq(seq);
        size_t base = m.ByteSizeLong();
        for (size_t n = target > base + 6 ? target - base - 6 : 1;; n++) {
            m.set_blob(std::string(n, char(n)));
            if (m.ByteSizeLong() >= target) break;
        }
        return m;
    }
    if (size == 9) {
        // the less common kinds of fields, and values at the ends of their ranges
        static const double ds[] = {0.0, 1.5, -1e308, 5e-324, 1.0 / 0.0, -1.0 / 0.0, 0.1};
        static const float fs[] = {0.0f, 2.5f, -3e38f, 1e-45f, 1.0f / 0.0f, 0.1f};
        m.set_text(rndText(r, int(r.below(400))));
        m.set_i64(edge(r));
        for (int i = int(r.below(20)); i > 0; i--) m.add_s32s(int32_t(edge(r)));
        for (int i = int(r.below(4)); i > 0; i--) m.add_i64s(edge(r));
        for (int i = int(r.below(4)); i > 0; i--) m.add_x32s(uint32_t(edge(r)));
        for (int i = int(r.below(4)); i > 0; i--) m.add_sx32s(int32_t(edge(r)));
        for (int i = int(r.below(40)); i > 0; i--) m.add_sx64s(edge(r));
        for (int i = int(r.below(4)); i > 0; i--) m.add_u32s(uint32_t(edge(r)));
        for (int i = int(r.below(4)); i > 0; i--) (*m.mutable_m4())[uint32_t(edge(r))] = rndBytes(r, r.below(9));
        for (int i = int(r.below(4)); i > 0; i--) { std::string k = rndText(r, int(r.below(4))); (*m.mutable_m5())[k] = rndText(r, int(r.below(200))); }
        for (int i = int(r.below(4)); i > 0; i--) (*m.mutable_m6())[uint64_t(edge(r))] = ds[r.below(7)];
        for (int i = int(r.below(4)); i > 0; i--) (*m.mutable_m7())[int32_t(edge(r))] = static_cast<refsim::Color>(r.below(2) ? 7 : r.below(2) ? 1 : 129);
        for (int i = int(r.below(4)); i > 0; i--) (*m.mutable_m8())[uint64_t(edge(r))] = uint64_t(edge(r));
        m.set_fl(fs[r.below(6)]);
        m.set_db(ds[r.below(7)]);
        for (int i = int(r.below(4)); i > 0; i--) m.add_dbs(ds[r.below(7)]);
        for (int i = int(r.below(4)); i > 0; i--) m.add_fls(fs[r.below(6)]);
        // values of a newer version of the enumeration are kept, too
        static const int cs[] = {7, 3, 8, 127, 128, 300, 1000, 70000, 0x7fffffff};
        m.set_color(static_cast<refsim::Color>(cs[r.below(9)]));
        for (int i = int(r.below(4)); i > 0; i--) m.add_colors(static_cast<refsim::Color>(cs[r.below(9)]));
        return m;
    }
    if (size == 6) { fillNode(r, m.mutable_node(), int(2 + r.below(6))); return m; }
    m.set_blob(rndBytes(r, r.below(40)));
    for (int i = int(r.below(5)); i > 0; i--) m.add_i32s(int32_t(edge(r)));
    for (int i = int(r.below(5)); i > 0; i--) m.add_s64s(edge(r));
    for (int i = int(r.below(4)); i > 0; i--) m.add_strs(rndText(r, int(r.below(5))));
    for (int i = int(r.below(4)); i > 0; i--) m.add_blobs(rndBytes(r, r.below(6)));
    fillLeaf(r, m.mutable_leaf());
    for (int i = int(r.below(4)); i > 0; i--) fillLeaf(r, m.add_leaves());
    for (int i = int(r.below(4)); i > 0; i--) (*m.mutable_m1())[int32_t(edge(r))] = rndText(r, int(r.below(4)));
    for (int i = int(r.below(3)); i > 0; i--) { refsim::Leaf l; fillLeaf(r, &l); (*m.mutable_m2())[rndText(r, int(r.below(4)))] = l; }
    m.set_flag(r.below(2));
    m.set_fl(float(int(r.below(2000)) - 1000) / 8);
    m.set_db(double(int64_t(r.below(2000000)) - 1000000) / 64);
    m.set_x32(uint32_t(edge(r)));
    m.set_x64(uint64_t(edge(r)));
    m.set_sx32(int32_t(edge(r)));
    m.set_sx64(edge(r));
    m.set_u64(uint64_t(edge(r)));
    m.set_i32(int32_t(edge(r)));
    static const refsim::Color cs[] = {refsim::NONE, refsim::RED, refsim::GREEN, refsim::BLUE};
    m.set_color(cs[r.below(4)]);
    for (int i = int(r.below(4)); i > 0; i--) m.add_colors(cs[r.below(4)]);
    for (int i = int(r.below(4)); i > 0; i--) m.add_dbs(double(r.below(1000)) / 4);
    for (int i = int(r.below(4)); i > 0; i--) m.add_x64s(uint64_t(edge(r)));
    for (int i = int(r.below(4)); i > 0; i--) m.add_fls(float(r.below(1000)) / 4);
    for (int i = int(r.below(4)); i > 0; i--) m.add_u64s(uint64_t(edge(r)));
    for (int i = int(r.below(3)); i > 0; i--) (*m.mutable_m3())[edge(r)] = int32_t(edge(r));
    if (r.below(2)) fillNode(r, m.mutable_node(), int(r.below(4)));
    return m;
}

std::string wire(const refsim::Msg &m)
{
    std::string s;
    {
        google::protobuf::io::StringOutputStream os(&s);
        google::protobuf::io::CodedOutputStream cos(&os);
        cos.SetSerializationDeterministic(true);
        m.SerializeToCodedStream(&cos);
    }
    return s;
}

std::string canon(const refsim::Msg &m)
{
    refsim::Msg n = m;
    n.DiscardUnknownFields();
    n.mutable_leaf();   // an absent and an empty message are the same value for the Qt classes
    n.mutable_node();
    return wire(n);
}

uint64_t digest(const refsim::Msg &m)
{
    std::string s = canon(m);
    return fnv(s.data(), s.size());
}

namespace {
std::string vi(uint64_t v)
{
    std::string s;
    do { unsigned char b = v & 0x7f; v >>= 7; s += char(v ? b | 0x80 : b); } while (v);
    return s;
}
uint64_t readVi(const std::string &s, size_t &i)
{
    uint64_t v = 0;
    for (int sh = 0; i < s.size(); sh += 7) {
        unsigned char b = static_cast<unsigned char>(s[i++]);
        v |= uint64_t(b & 0x7f) << sh;
        if (!(b & 0x80)) break;
    }
    return v;
}
std::string unknownField(Rng &r)
{
    static const int numbers[] = {1, 44, 59, 61, 99, 1000, 2047, 2048, 18999, 262143, 536870911};
    uint64_t f = uint64_t(numbers[r.below(11)]) << 3;
    switch (r.below(4)) {
    case 0: return vi(f) + vi(r.below(2) ? r.next() : r.below(200));
    case 1: return vi(f | 1) + rndBytes(r, 8);
    case 2: { std::string b = rndBytes(r, r.below(3) ? r.below(10) : 120 + r.below(300)); return vi(f | 2) + vi(b.size()) + b; }
    default: return vi(f | 5) + rndBytes(r, 4);
    }
}
}

// another encoding of the same message: fields of a newer version of it, other order of fields, explicit defaults
std::string reshape(const std::string &bytes, uint64_t seed)
{
    Rng r(seed);
    std::vector<std::pair<int, std::string>> parts;
    std::set<int> have;
    for (size_t i = 0; i < bytes.size();) {
        size_t from = i;
        uint64_t tag = readVi(bytes, i);
        if ((tag & 7) == 0) readVi(bytes, i);
        else if ((tag & 7) == 1) i += 8;
        else if ((tag & 7) == 5) i += 4;
        else { uint64_t n = readVi(bytes, i); i += n; }
        parts.push_back({int(tag >> 3), bytes.substr(from, i - from)});
        have.insert(int(tag >> 3));
    }
    if (r.below(3) == 0) {
        std::map<int, uint64_t> order;
        for (auto &p : parts) if (!order.count(p.first)) order[p.first] = r.next();
        std::stable_sort(parts.begin(), parts.end(), [&](const std::pair<int, std::string> &a, const std::pair<int, std::string> &b) { return order[a.first] < order[b.first]; });
    }
    if (r.below(3) == 0) {
        // packed lists in several pieces
        static const std::map<int, int> width = {{5, 0}, {6, 0}, {25, 0}, {26, 8}, {27, 8}, {28, 4}, {29, 0}, {33, 0}, {34, 0}, {35, 4}, {36, 4}, {37, 8}, {38, 0}};
        for (size_t k = 0; k < parts.size(); k++) {
            auto w = width.find(parts[k].first);
            if (w == width.end() || r.below(2)) continue;
            const std::string &whole = parts[k].second;
            size_t at = 0;
            uint64_t tag = readVi(whole, at);
            readVi(whole, at);
            std::vector<std::string> elems;
            while (at < whole.size()) {
                size_t from = at;
                if (w->second) at += size_t(w->second);
                else readVi(whole, at);
                elems.push_back(whole.substr(from, at - from));
            }
            std::string split;
            for (size_t i = 0; i < elems.size();) {
                std::string chunk;
                for (size_t c = 1 + r.below(elems.size()); c > 0 && i < elems.size(); c--) chunk += elems[i++];
                split += vi(tag) + vi(chunk.size()) + chunk;
            }
            parts[k].second = split;
        }
    }
    auto put = [&](int f, const std::string &s) { size_t at = r.below(parts.size() + 1); parts.insert(parts.begin() + long(at), {f, s}); };
    if (r.below(3) == 0) {
        // defaults a server may write out
        for (int f : {2, 13, 20, 22, 24, 32, 60}) if (!have.count(f) && r.below(2)) put(f, vi(uint64_t(f) << 3) + vi(0));
        for (int f : {3, 4, 5, 26, 33}) if (!have.count(f) && r.below(2)) put(f, vi(uint64_t(f) << 3 | 2) + vi(0));
        if (!have.count(15) && r.below(2)) put(15, vi(15 << 3 | 1) + std::string(8, '\0'));
    }
    if (r.below(4)) for (int i = int(1 + r.below(4)); i > 0; i--) put(0, unknownField(r));
    std::string s;
    for (auto &p : parts) s += p.second;
    return s;
}

namespace {
QString qs(const std::string &s) { return QString::fromUtf8(s.data(), int(s.size())); }
QByteArray qb(const std::string &s) { return QByteArray(s.data(), int(s.size())); }
std::string ss(const QString &s) { QByteArray b = s.toUtf8(); return std::string(b.constData(), size_t(b.size())); }
std::string sb(const QByteArray &b) { return std::string(b.constData(), size_t(b.size())); }

void leafTo(const refsim::Leaf &l, vsim::Leaf &o)
{
    o.setA(l.a());
    o.setS(qs(l.s()));
    QtProtobuf::uint32List us;
    for (auto v : l.us()) us.append(v);
    o.setUs(us);
}
void leafFrom(const vsim::Leaf &l, refsim::Leaf *o)
{
    o->set_a(l.a());
    o->set_s(ss(l.s()));
    for (auto v : l.us()) o->add_us(v);
}
void nodeTo(const refsim::Node &n, vsim::Node &o)
{
    o.setDepth(n.depth());
    o.setTag(qb(n.tag()));
    vsim::NodeRepeated kids;
    for (auto &k : n.kids()) {
        QSharedPointer<vsim::Node> q(new vsim::Node);
        nodeTo(k, *q);
        kids.append(q);
    }
    o.setKids(kids);
}
void nodeFrom(const vsim::Node &n, refsim::Node *o)
{
    o->set_depth(n.depth());
    o->set_tag(sb(n.tag()));
    for (auto &k : n.kids()) {
        if (k) nodeFrom(*k, o->add_kids());
        else o->add_kids();
    }
}
}

namespace {
// libprotobuf's maps are iterated in an order that differs between executions
template<typename M> auto sorted(const M &m) { return std::map<typename M::key_type, typename M::mapped_type>(m.begin(), m.end()); }
}

void toQt(const refsim::Msg &m, vsim::Msg &o)
{
    o.setUid(m.uid());
    o.setSeq(m.seq());
    o.setText(qs(m.text()));
    o.setBlob(qb(m.blob()));
    { QtProtobuf::int32List l; for (auto v : m.i32s()) l.append(v); o.setI32s(l); }
    { QtProtobuf::sint64List l; for (auto v : m.s64s()) l.append(v); o.setS64s(l); }
    { QStringList l; for (auto &v : m.strs()) l.append(qs(v)); o.setStrs(l); }
    { QByteArrayList l; for (auto &v : m.blobs()) l.append(qb(v)); o.setBlobs(l); }
    if (m.has_leaf()) { vsim::Leaf l; leafTo(m.leaf(), l); o.setLeaf(l); }
    { vsim::LeafRepeated l; for (auto &v : m.leaves()) { QSharedPointer<vsim::Leaf> q(new vsim::Leaf); leafTo(v, *q); l.append(q); } o.setLeaves(l); }
    { vsim::Msg::M1Entry e; for (auto &v : sorted(m.m1())) e.insert(v.first, qs(v.second)); o.setM1(e); }
    { vsim::Msg::M2Entry e; for (auto &v : sorted(m.m2())) { QSharedPointer<vsim::Leaf> q(new vsim::Leaf); leafTo(v.second, *q); e.insert(qs(v.first), q); } o.setM2(e); }
    o.setFlag(m.flag());
    o.setFl(m.fl());
    o.setDb(m.db());
    o.setX32(m.x32());
    o.setX64(m.x64());
    o.setSx32(m.sx32());
    o.setSx64(m.sx64());
    o.setU32(m.u32());
    o.setU64(m.u64());
    o.setI32(m.i32());
    o.setS64(m.s64());
    o.setColor(static_cast<vsim::ColorGadget::Color>(m.color()));
    { vsim::ColorGadget::ColorRepeated l; for (auto v : m.colors()) l.append(static_cast<vsim::ColorGadget::Color>(v)); o.setColors(l); }
    { QtProtobuf::DoubleList l; for (auto v : m.dbs()) l.append(v); o.setDbs(l); }
    { QtProtobuf::fixed64List l; for (auto v : m.x64s()) l.append(v); o.setX64s(l); }
    { QtProtobuf::FloatList l; for (auto v : m.fls()) l.append(v); o.setFls(l); }
    { QtProtobuf::uint64List l; for (auto v : m.u64s()) l.append(v); o.setU64s(l); }
    { vsim::Msg::M3Entry e; for (auto &v : sorted(m.m3())) e.insert(v.first, v.second); o.setM3(e); }
    o.setI64(m.i64());
    { QtProtobuf::sint32List l; for (auto v : m.s32s()) l.append(v); o.setS32s(l); }
    { QtProtobuf::int64List l; for (auto v : m.i64s()) l.append(v); o.setI64s(l); }
    { QtProtobuf::fixed32List l; for (auto v : m.x32s()) l.append(v); o.setX32s(l); }
    { QtProtobuf::sfixed32List l; for (auto v : m.sx32s()) l.append(v); o.setSx32s(l); }
    { QtProtobuf::sfixed64List l; for (auto v : m.sx64s()) l.append(v); o.setSx64s(l); }
    { QtProtobuf::uint32List l; for (auto v : m.u32s()) l.append(v); o.setU32s(l); }
    { vsim::Msg::M4Entry e; for (auto &v : sorted(m.m4())) e.insert(v.first, qb(v.second)); o.setM4(e); }
    { vsim::Msg::M5Entry e; for (auto &v : sorted(m.m5())) e.insert(qs(v.first), qs(v.second)); o.setM5(e); }
    { vsim::Msg::M6Entry e; for (auto &v : sorted(m.m6())) e.insert(v.first, v.second); o.setM6(e); }
    { vsim::Msg::M7Entry e; for (auto &v : sorted(m.m7())) e.insert(v.first, static_cast<vsim::ColorGadget::Color>(v.second)); o.setM7(e); }
    { vsim::Msg::M8Entry e; for (auto &v : sorted(m.m8())) e.insert(v.first, v.second); o.setM8(e); }
    if (m.has_node()) { vsim::Node n; nodeTo(m.node(), n); o.setNode(n); }
}

refsim::Msg fromQt(const vsim::Msg &m)
{
    refsim::Msg o;
    o.set_uid(m.uid());
    o.set_seq(m.seq());
    o.set_text(ss(m.text()));
    o.set_blob(sb(m.blob()));
    for (auto v : m.i32s()) o.add_i32s(v);
    for (auto v : m.s64s()) o.add_s64s(v);
    for (auto &v : m.strs()) o.add_strs(ss(v));
    for (auto &v : m.blobs()) o.add_blobs(sb(v));
    leafFrom(m.leaf(), o.mutable_leaf());
    for (auto &v : m.leaves()) { if (v) leafFrom(*v, o.add_leaves()); else o.add_leaves(); }
    auto m1 = m.m1();
    for (auto i = m1.begin(); i != m1.end(); ++i) (*o.mutable_m1())[int32_t(i.key()._t)] = ss(i.value());
    auto m2 = m.m2();
    for (auto i = m2.begin(); i != m2.end(); ++i) { refsim::Leaf l; if (i.value()) leafFrom(*i.value(), &l); (*o.mutable_m2())[ss(i.key())] = l; }
    o.set_flag(m.flag());
    o.set_fl(m.fl());
    o.set_db(m.db());
    o.set_x32(m.x32());
    o.set_x64(m.x64());
    o.set_sx32(m.sx32());
    o.set_sx64(m.sx64());
    o.set_u32(m.u32());
    o.set_u64(m.u64());
    o.set_i32(m.i32());
    o.set_s64(m.s64());
    o.set_color(static_cast<refsim::Color>(int(m.color())));
    for (auto v : m.colors()) o.add_colors(static_cast<refsim::Color>(int(v)));
    for (auto v : m.dbs()) o.add_dbs(v);
    for (auto v : m.x64s()) o.add_x64s(v);
    for (auto v : m.fls()) o.add_fls(v);
    for (auto v : m.u64s()) o.add_u64s(v);
    auto m3 = m.m3();
    for (auto i = m3.begin(); i != m3.end(); ++i) (*o.mutable_m3())[i.key()] = i.value();
    o.set_i64(m.i64());
    for (auto v : m.s32s()) o.add_s32s(v);
    for (auto v : m.i64s()) o.add_i64s(v);
    for (auto v : m.x32s()) o.add_x32s(v);
    for (auto v : m.sx32s()) o.add_sx32s(v);
    for (auto v : m.sx64s()) o.add_sx64s(v);
    for (auto v : m.u32s()) o.add_u32s(v);
    auto m4 = m.m4();
    for (auto i = m4.begin(); i != m4.end(); ++i) (*o.mutable_m4())[i.key()] = sb(i.value());
    auto m5 = m.m5();
    for (auto i = m5.begin(); i != m5.end(); ++i) (*o.mutable_m5())[ss(i.key())] = ss(i.value());
    auto m6 = m.m6();
    for (auto i = m6.begin(); i != m6.end(); ++i) (*o.mutable_m6())[uint64_t(i.key()._t)] = i.value();
    auto m7 = m.m7();
    for (auto i = m7.begin(); i != m7.end(); ++i) (*o.mutable_m7())[int32_t(i.key()._t)] = static_cast<refsim::Color>(int(i.value()));
    auto m8 = m.m8();
    for (auto i = m8.begin(); i != m8.end(); ++i) (*o.mutable_m8())[i.key()] = i.value();
    nodeFrom(m.node(), o.mutable_node());
    return o;
}

uint64_t digestQt(const vsim::Msg &m)
{
    sim::NoPreempt np;
    return digest(fromQt(m));
}

std::string brief(const refsim::Msg &m)
{
    return "{uid=" + std::to_string(m.uid()) + " seq=" + std::to_string(m.seq()) + " bytes=" + std::to_string(m.ByteSizeLong()) + "}";
}
