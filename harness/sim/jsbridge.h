// What JavaScript callbacks of calls made from QML report to.
#pragma once
#include <QObject>
#include <QJSValue>
#include <functional>
class JsBridge : public QObject {
    Q_OBJECT
public:
    std::function<void(int, QObject *)> onOk;
    std::function<void(int, const QJSValue &)> onErr;
    Q_INVOKABLE void ok(int id, QObject *v) { onOk(id, v); }
    Q_INVOKABLE void err(int id, const QJSValue &v) { onErr(id, v); }
};
