#include "qtmsg.h"
#include "rng.h"
#include <cstring>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <google/protobuf/util/message_differencer.h>
#include "vqt/vqt.qpb.h"
#include "qtprotobufqttypes.h"

namespace {
float f4(Rng &r) { return float(r.range(-4000, 4000)) / 8; }
double f8(Rng &r) { return double(r.range(-400000, 400000)) / 64; }
int32_t i4(Rng &r) { return int32_t(r.range(-100000, 100000)); }
template <class M> void floats(Rng &r, M *m)
{
    auto *d = M::descriptor();
    for (int i = 0; i < d->field_count(); i++) {
        if (d->field(i)->cpp_type() == google::protobuf::FieldDescriptor::CPPTYPE_FLOAT) m->GetReflection()->SetFloat(m, d->field(i), f4(r));
        else m->GetReflection()->SetDouble(m, d->field(i), f8(r));
    }
}
}

refqt::Qts makeQts(int64_t uid, int64_t x)
{
    Rng r(mix(uint64_t(uid), uint64_t(x) + 77));
    refqt::Qts m;
    m.set_n(int32_t(uid));
    // every field is there or not, as protobuf allows
    auto there = [&] { return r.chance(0.6); };
    auto time = [&](refqt::QTime *t) { t->set_f1(int32_t(r.below(86400000))); };
    auto date = [&](refqt::QDate *d) { d->set_f1(int32_t(r.range(1980, 2090))); d->set_f2(int32_t(r.range(1, 12))); d->set_f3(int32_t(r.range(1, 28))); };
    if (there()) m.mutable_url()->set_f1("http://host" + std::to_string(uid) + "/" + std::to_string(r.below(100000)));
    if (there()) { unsigned c = unsigned(r.range(0x20, 0xd000)); m.mutable_letter()->set_f1(std::string{char(c >> 8), char(c & 255)}); }
    if (there()) {
        char b[64];
        snprintf(b, sizeof b, "{%08x-%04x-4%03x-a%03x-%012llx}", unsigned(r.next()), unsigned(r.next() & 0xffff), unsigned(r.next() & 0xfff), unsigned(r.next() & 0xfff), (unsigned long long)(r.next() & 0xffffffffffffULL));
        m.mutable_uuid()->set_f1(b);
    }
    if (there()) time(m.mutable_time());
    if (there()) date(m.mutable_date());
    if (there()) { date(m.mutable_moment()->mutable_f1()); time(m.mutable_moment()->mutable_f2()); }
    if (there()) { m.mutable_size()->set_f1(i4(r)); m.mutable_size()->set_f2(i4(r)); }
    if (there()) { m.mutable_sizef()->set_f1(f8(r)); m.mutable_sizef()->set_f2(f8(r)); }
    if (there()) { m.mutable_point()->set_f1(i4(r)); m.mutable_point()->set_f2(i4(r)); }
    if (there()) { m.mutable_pointf()->set_f1(f8(r)); m.mutable_pointf()->set_f2(f8(r)); }
    if (there()) { auto *q = m.mutable_rect(); q->mutable_f1()->set_f1(i4(r)); q->mutable_f1()->set_f2(i4(r)); q->mutable_f2()->set_f1(i4(r)); q->mutable_f2()->set_f2(i4(r)); }
    if (there()) { auto *q = m.mutable_rectf(); floats(r, q->mutable_f1()); floats(r, q->mutable_f2()); }
    if (there()) for (int i = int(r.below(6)); i >= 0; i--) { auto *q = m.mutable_polygon()->add_f1(); q->set_f1(i4(r)); q->set_f2(i4(r)); }
    if (there()) for (int i = int(r.below(6)); i >= 0; i--) floats(r, m.mutable_polygonf()->add_f1());
    if (there()) m.mutable_color()->set_f1(uint32_t(r.next()));
    if (there()) floats(r, m.mutable_matrix());
    if (there()) floats(r, m.mutable_vector2());
    if (there()) floats(r, m.mutable_vector3());
    if (there()) floats(r, m.mutable_vector4());
    if (there()) floats(r, m.mutable_transform());
    if (there()) { m.mutable_quaternion()->set_f1(f4(r)); floats(r, m.mutable_quaternion()->mutable_f2()); }
    return m;
}

void qtsToQt(const refqt::Qts &m, vqt::Qts &q)
{
    auto time = [](const refqt::QTime &t) { return QTime::fromMSecsSinceStartOfDay(t.f1()); };
    auto date = [](const refqt::QDate &d) { return QDate(d.f1(), d.f2(), d.f3()); };
    auto pt = [](const refqt::QPoint &p) { return QPoint(p.f1(), p.f2()); };
    auto ptf = [](const refqt::QPointF &p) { return QPointF(p.f1(), p.f2()); };
    q.setN(m.n());
    if (m.has_url()) q.setUrl(QUrl(QString::fromStdString(m.url().f1())));
    if (m.has_letter()) q.setLetter(QChar(ushort((uint8_t(m.letter().f1()[0]) << 8) | uint8_t(m.letter().f1()[1]))));
    if (m.has_uuid()) q.setUuid(QUuid(QString::fromStdString(m.uuid().f1())));
    if (m.has_time()) q.setTime(time(m.time()));
    if (m.has_date()) q.setDate(date(m.date()));
    if (m.has_moment()) q.setMoment(QDateTime(date(m.moment().f1()), time(m.moment().f2())));
    if (m.has_size()) q.setSize(QSize(m.size().f1(), m.size().f2()));
    if (m.has_sizef()) q.setSizeF(QSizeF(m.sizef().f1(), m.sizef().f2()));
    if (m.has_point()) q.setPoint(pt(m.point()));
    if (m.has_pointf()) q.setPointF(ptf(m.pointf()));
    if (m.has_rect()) q.setRect(QRect(pt(m.rect().f1()), QSize(m.rect().f2().f1(), m.rect().f2().f2())));
    if (m.has_rectf()) q.setRectF(QRectF(ptf(m.rectf().f1()), QSizeF(m.rectf().f2().f1(), m.rectf().f2().f2())));
    if (m.has_polygon()) { QPolygon p; for (auto &x : m.polygon().f1()) p.append(pt(x)); q.setPolygon(p); }
    if (m.has_polygonf()) { QPolygonF p; for (auto &x : m.polygonf().f1()) p.append(ptf(x)); q.setPolygonF(p); }
    if (m.has_color()) q.setColor(QColor::fromRgba(m.color().f1()));
    if (m.has_matrix()) { auto &a = m.matrix(); q.setMatrix(QMatrix4x4(a.f1(), a.f2(), a.f3(), a.f4(), a.f5(), a.f6(), a.f7(), a.f8(), a.f9(), a.f10(), a.f11(), a.f12(), a.f13(), a.f14(), a.f15(), a.f16())); }
    if (m.has_vector2()) q.setVector2(QVector2D(m.vector2().f1(), m.vector2().f2()));
    if (m.has_vector3()) q.setVector3(QVector3D(m.vector3().f1(), m.vector3().f2(), m.vector3().f3()));
    if (m.has_vector4()) q.setVector4(QVector4D(m.vector4().f1(), m.vector4().f2(), m.vector4().f3(), m.vector4().f4()));
    if (m.has_transform()) { auto &a = m.transform(); q.setTransform(QTransform(a.f1(), a.f2(), a.f3(), a.f4(), a.f5(), a.f6(), a.f7(), a.f8(), a.f9())); }
    if (m.has_quaternion()) q.setQuaternion(QQuaternion(m.quaternion().f1(), QVector3D(m.quaternion().f2().f1(), m.quaternion().f2().f2(), m.quaternion().f2().f3())));
}

// what the application reads, as a message; a value that was never sent is the default of its Qt type
refqt::Qts qtsFromQt(const vqt::Qts &q)
{
    refqt::Qts m;
    auto pt = [](const QPoint &p, refqt::QPoint *o) { o->set_f1(p.x()); o->set_f2(p.y()); };
    auto ptf = [](const QPointF &p, refqt::QPointF *o) { o->set_f1(p.x()); o->set_f2(p.y()); };
    auto date = [](const QDate &d, refqt::QDate *o) { o->set_f1(d.year()); o->set_f2(d.month()); o->set_f3(d.day()); };
    m.set_n(q.n());
    m.mutable_url()->set_f1(q.url().url().toStdString());
    { QChar c = q.letter(); m.mutable_letter()->set_f1(std::string{char(c.row()), char(c.cell())}); }
    m.mutable_uuid()->set_f1(q.uuid().toString().toStdString());
    m.mutable_time()->set_f1(q.time().msecsSinceStartOfDay());
    date(q.date(), m.mutable_date());
    { QDateTime d = q.moment(); date(d.date(), m.mutable_moment()->mutable_f1()); m.mutable_moment()->mutable_f2()->set_f1(d.time().msecsSinceStartOfDay()); }
    m.mutable_size()->set_f1(q.size().width()); m.mutable_size()->set_f2(q.size().height());
    m.mutable_sizef()->set_f1(q.sizeF().width()); m.mutable_sizef()->set_f2(q.sizeF().height());
    pt(q.point(), m.mutable_point());
    ptf(q.pointF(), m.mutable_pointf());
    { QRect a = q.rect(); pt(a.topLeft(), m.mutable_rect()->mutable_f1()); m.mutable_rect()->mutable_f2()->set_f1(a.width()); m.mutable_rect()->mutable_f2()->set_f2(a.height()); }
    { QRectF a = q.rectF(); ptf(a.topLeft(), m.mutable_rectf()->mutable_f1()); m.mutable_rectf()->mutable_f2()->set_f1(a.width()); m.mutable_rectf()->mutable_f2()->set_f2(a.height()); }
    m.mutable_polygon(); for (auto &p : QPolygon(q.polygon())) pt(p, m.mutable_polygon()->add_f1());
    m.mutable_polygonf(); for (auto &p : QPolygonF(q.polygonF())) ptf(p, m.mutable_polygonf()->add_f1());
    m.mutable_color()->set_f1(q.color().rgba());
    {
        QMatrix4x4 a = q.matrix();
        auto *o = m.mutable_matrix();
        for (int i = 0; i < 16; i++) o->GetReflection()->SetFloat(o, o->GetDescriptor()->field(i), a(i / 4, i % 4));
    }
    { QVector2D a = q.vector2(); m.mutable_vector2()->set_f1(a.x()); m.mutable_vector2()->set_f2(a.y()); }
    { QVector3D a = q.vector3(); auto *o = m.mutable_vector3(); o->set_f1(a.x()); o->set_f2(a.y()); o->set_f3(a.z()); }
    { QVector4D a = q.vector4(); auto *o = m.mutable_vector4(); o->set_f1(a.x()); o->set_f2(a.y()); o->set_f3(a.z()); o->set_f4(a.w()); }
    {
        QTransform a = q.transform();
        auto *o = m.mutable_transform();
        o->set_f1(a.m11()); o->set_f2(a.m12()); o->set_f3(a.m13()); o->set_f4(a.m21()); o->set_f5(a.m22()); o->set_f6(a.m23()); o->set_f7(a.m31()); o->set_f8(a.m32()); o->set_f9(a.m33());
    }
    { QQuaternion a = q.quaternion(); auto *o = m.mutable_quaternion(); o->set_f1(a.scalar()); o->mutable_f2()->set_f1(a.x()); o->mutable_f2()->set_f2(a.y()); o->mutable_f2()->set_f3(a.z()); }
    return m;
}

std::string canonQts(const refqt::Qts &m)
{
    std::string s;
    {
        google::protobuf::io::StringOutputStream o(&s);
        google::protobuf::io::CodedOutputStream c(&o);
        c.SetSerializationDeterministic(true);
        m.SerializeToCodedStream(&c);
    }
    return s;
}

void registerQtTypes() { QtProtobuf::qRegisterProtobufQtTypes(); }
