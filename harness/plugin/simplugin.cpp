// Serializer plugins for the simulation: two good ones and several that cannot be used.
#include <QObject>
#include <QtPlugin>
#include "qprotobufserializationplugininterface.h"
#include "qprotobufserializer.h"

#if defined(SIM_PLUGIN_alpha) || defined(SIM_PLUGIN_undef) || defined(SIM_PLUGIN_delta)
#define MARK "alpha:"
#define INFO "alpha.json"
#elif defined(SIM_PLUGIN_beta)
#define MARK "beta:"
#define INFO "beta.json"
#else
#define MARK "gamma:"
#define INFO "gamma.json"
#endif

#ifdef SIM_PLUGIN_undef
extern int vsimSymbolThatDoesNotExist;
int *vsimUse = &vsimSymbolThatDoesNotExist;
#endif

#ifdef SIM_PLUGIN_plain
extern "C" int vsimPlain() { return 1; }
#else
namespace {
class Marked : public QtProtobuf::QProtobufSerializer
{
public:
    explicit Marked(const QByteArray &m) : m_mark(m) {}
    // the outermost message is marked
    QByteArray serializeMessage(const QObject *o, const QtProtobuf::QProtobufMetaObject &mo) const override
    {
        m_depth++;
        QByteArray r = QtProtobuf::QProtobufSerializer::serializeMessage(o, mo);
        return --m_depth ? r : m_mark + r;
    }
    QByteArray m_mark;
    mutable int m_depth = 0;
};
}
#if defined(SIM_PLUGIN_gamma) || defined(SIM_PLUGIN_delta)
// a plugin of another kind
class SimPlugin : public QObject
{
    Q_OBJECT
    Q_PLUGIN_METADATA(IID "sim.other.interface" FILE INFO)
};
#else
class SimPlugin : public QObject, QtProtobuf::QProtobufSerializationPluginInterface
{
    Q_OBJECT
    Q_PLUGIN_METADATA(IID SerializatorInterface_iid FILE INFO)
    Q_INTERFACES(QtProtobuf::QProtobufSerializationPluginInterface)
public:
    std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> serializer(const QString &name) override
    {
        return std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer>(new Marked(QByteArray(MARK) + name.toLatin1() + ":"));
    }
};
#endif
#include "simplugin.moc"
#endif
