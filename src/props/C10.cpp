// C10: the introspected API is the one that is enforced.
#include "mix.h"
#include "jsonrpc/jsonhandler.h"
#include "jsonrpc/jsontypes.h"
#include <QJsonArray>
#include <QJsonDocument>
#include <cmath>

using namespace remoteproxy;

namespace {
const QStringList basicNames = {"Uuid", "String", "Int", "UInt", "Double", "Bool", "Variant", "Object"};

QString kindName(const QJsonValue &v)
{
    switch (v.type()) {
    case QJsonValue::String: return "string";
    case QJsonValue::Double: return "number";
    case QJsonValue::Bool: return "boolean";
    case QJsonValue::Array: return "array";
    case QJsonValue::Object: return "object";
    default: return "null";
    }
}

// 1: can be converted, 0: cannot, -1: not specified
int convertible(const QString &type, const QJsonValue &v)
{
    if (type == "Variant" || type == "Object")
        return 1;
    if (v.isNull() || v.isUndefined())
        return -1;
    if (v.isObject() || v.isArray())
        return 0;
    if (type == "Uuid")
        return v.isString() ? 1 : 0;
    return 1;
}

// does a value in a reply or notification match its template?
QString matches(const QJsonObject &doc, const QJsonValue &tmpl, const QJsonValue &v, const QString &path);

QString matchesMap(const QJsonObject &doc, const QJsonObject &tmpl, const QJsonObject &v, const QString &path)
{
    for (auto it = tmpl.begin(); it != tmpl.end(); ++it) {
        bool opt = it.key().startsWith("o:");
        QString key = opt ? it.key().mid(2) : it.key();
        if (!v.contains(key)) {
            if (!opt)
                return path + key + " is missing";
            continue;
        }
        QString r = matches(doc, it.value(), v[key], path + key + ".");
        if (!r.isEmpty())
            return r;
    }
    for (const QString &key : v.keys()) {
        if (!tmpl.contains(key) && !tmpl.contains("o:" + key))
            return path + key + " is not advertised";
    }
    return QString();
}

QString matches(const QJsonObject &doc, const QJsonValue &tmpl, const QJsonValue &v, const QString &path)
{
    if (tmpl.isObject())
        return v.isObject() ? matchesMap(doc, tmpl.toObject(), v.toObject(), path) : path + " is no object";
    if (tmpl.isArray()) {
        if (!v.isArray())
            return path + " is no array";
        for (const QJsonValue &e : v.toArray()) {
            QString r = matches(doc, tmpl.toArray().first(), e, path);
            if (!r.isEmpty())
                return r;
        }
        return QString();
    }
    QString t = tmpl.toString();
    bool ok = false;
    if (t.startsWith("$ref:")) {
        QJsonValue type = doc["types"].toObject()[t.mid(5)];
        if (type.isArray())
            ok = v.isString() && type.toArray().contains(v);
        else if (type.isObject())
            return matches(doc, type, v, path);
        if (!ok)
            return path + " is " + v.toVariant().toString() + ", which is not in the advertised " + t;
        return QString();
    }
    if (t == "String")
        ok = v.isString();
    else if (t == "Uuid")
        ok = v.isString() && !QUuid(v.toString()).isNull();
    else if (t == "Bool")
        ok = v.isBool();
    else if (t == "Int")
        ok = v.isDouble() && v.toDouble() == std::floor(v.toDouble());
    else if (t == "UInt")
        ok = v.isDouble() && v.toDouble() == std::floor(v.toDouble()) && v.toDouble() >= 0;
    else if (t == "Double")
        ok = v.isDouble();
    else if (t == "Variant")
        ok = !v.isUndefined();
    else if (t == "Object")
        ok = v.isObject();
    return ok ? QString() : path + " is a " + kindName(v) + ", advertised as " + t;
}

struct Api {
    Src &s;
    Ctx &c;
    World &w;
    Mixer &x;
    QJsonObject doc;
    int good = 0, bad = 0, unknown = 0, notifications = 0;
    int uuidCounter = 0;
    QSet<QUuid> used;

    void fetch()
    {
        int k = x.newConn(w.anyTransport(1, 1, 1));
        ExpReply e;
        e.id = 3;
        e.cat = "api-introspect";
        e.what = "Introspect";
        e.check = [this](const QJsonObject &p) -> QString {
            doc = p;
            return QString();
        };
        w.at(k).replies.push_back(e);
        w.transmit(w.at(k), w.render(3, "RemoteProxy.Introspect", QJsonObject(), s.chance(1, 2)), Chunks());
        w.settle("introspect");
        wellFormed();
    }

    void checkTemplate(const QString &where, const QJsonValue &t)
    {
        if (t.isObject()) {
            QJsonObject o = t.toObject();
            for (auto it = o.begin(); it != o.end(); ++it)
                checkTemplate(where + "." + it.key(), it.value());
            return;
        }
        if (t.isArray()) {
            if (t.toArray().size() != 1)
                w.fail("api-introspect", where + " is no list template");
            checkTemplate(where, t.toArray().first());
            return;
        }
        QString n = t.toString();
        if (n.startsWith("$ref:")) {
            if (!doc["types"].toObject().contains(n.mid(5)))
                w.fail("api-introspect", where + " refers to " + n + ", which is not advertised");
        } else if (!basicNames.contains(n) || !doc["types"].toObject()["BasicType"].toArray().contains(n)) {
            w.fail("api-introspect", where + " has the type '" + n + "', which is not advertised");
        }
    }

    void wellFormed()
    {
        QStringList k = doc.keys();
        k.sort();
        if (k != QStringList({"methods", "notifications", "types"}))
            w.fail("api-introspect", "Introspect returns " + k.join(","));
        for (const QString &t : doc["types"].toObject().keys()) {
            QSet<QString> seen;
            for (const QJsonValue &v : doc["types"].toObject()[t].toArray()) {
                if (!v.isString() || v.toString().isEmpty() || seen.contains(v.toString()))
                    w.fail("api-introspect", "the advertised enum " + t + " has an empty or repeated value");
                seen << v.toString();
            }
        }
        for (QString need : {"RemoteProxy.Hello", "RemoteProxy.Introspect", "TunnelProxy.RegisterServer", "TunnelProxy.RegisterClient", "TunnelProxy.DisconnectClient", "TunnelProxy.Ping"}) {
            if (!doc["methods"].toObject().contains(need))
                w.fail("api-introspect", QString("the method %1 is not advertised").arg(need));
        }
        for (QString need : {"TunnelProxy.ClientConnected", "TunnelProxy.ClientDisconnected"}) {
            if (!doc["notifications"].toObject().contains(need))
                w.fail("api-introspect", QString("the notification %1 is not advertised").arg(need));
        }
        for (const QString &n : doc["methods"].toObject().keys()) {
            QJsonObject m = doc["methods"].toObject()[n].toObject();
            if (!m["description"].isString() || !m["params"].isObject() || !m["returns"].isObject())
                w.fail("api-introspect", "the method " + n + " is advertised without description, params or returns");
            checkTemplate(n + ".params", m["params"]);
            checkTemplate(n + ".returns", m["returns"]);
        }
        for (const QString &n : doc["notifications"].toObject().keys()) {
            QJsonObject m = doc["notifications"].toObject()[n].toObject();
            if (!m["description"].isString() || !m["params"].isObject())
                w.fail("api-introspect", "the notification " + n + " is advertised without description or params");
            checkTemplate(n + ".params", m["params"]);
        }
    }

    QUuid fresh() { return QUuid(0xbead0000u + uint(++uuidCounter), 1, 0x4000, 0x80, 2, 1, 1, 1, 1, 1, 1); }

    QJsonValue value(const QString &type)
    {
        if (type.startsWith("$ref:")) {
            QJsonArray a = doc["types"].toObject()[type.mid(5)].toArray();
            return a.isEmpty() ? QJsonValue("x") : a.at(int(s.draw(uint64_t(a.size()))));
        }
        if (type == "Uuid")
            return w.spell(fresh());
        if (type == "String")
            return s.unicode(30);
        if (type == "Int")
            return double(s.range(-100000, 100000));
        if (type == "UInt")
            return double(s.draw(4294967296ull));
        if (type == "Double")
            return s.range(-1000, 1000) / 8.0;
        if (type == "Bool")
            return s.chance(1, 2);
        return QJsonObject{{"k", 1}};
    }
    QJsonObject params(const QString &method, bool withOptional) { return fill(doc["methods"].toObject()[method].toObject()["params"].toObject(), withOptional); }
    QJsonObject fill(const QJsonObject &t, bool withOptional)
    {
        QJsonObject p;
        for (auto it = t.begin(); it != t.end(); ++it) {
            bool opt = it.key().startsWith("o:");
            if (opt && !withOptional)
                continue;
            QString key = opt ? it.key().mid(2) : it.key();
            if (it.value().isString())
                p[key] = value(it.value().toString());
            else if (it.value().isArray())
                p[key] = QJsonArray();
            else
                p[key] = QJsonObject();
        }
        return p;
    }

    QStringList methods() { return doc["methods"].toObject().keys(); }

    QString pickMethod()
    {
        QStringList l = methods();
        return l[int(s.draw(uint64_t(l.size())))];
    }

    int conn(bool server)
    {
        std::vector<int> v = w.byState(server ? Conn::Server : Conn::None);
        if (!v.empty() && s.chance(2, 3))
            return s.pick(v);
        if (w.live().size() >= 14)
            return v.empty() ? -1 : s.pick(v);
        int k = x.newConn(server ? w.anyTransport(2, 2, 0) : w.anyTransport(2, 2, 2));
        if (server)
            x.regServerNow(k, fresh(), "extra");
        return k;
    }

    void addTemplateCheck(Conn &k, const QString &method)
    {
        ExpReply &e = k.replies.back();
        e.cat = "api-reply";
        QJsonObject t = doc["methods"].toObject()[method].toObject()["returns"].toObject();
        auto old = e.check;
        QJsonObject d = doc;
        e.check = [old, t, d, method](const QJsonObject &p) -> QString {
            QString r = old ? old(p) : QString();
            if (r.isEmpty())
                r = matchesMap(d, t, p, "");
            return r.isEmpty() ? r : "does not match the advertised template of " + method + ": " + r;
        };
    }

    QByteArray render(Conn &k, int id, const QString &method, const QJsonObject &p, bool withParams)
    {
        return w.wrap(k, w.render(id, method, p, withParams), k.st == Conn::Server || s.chance(1, 2));
    }

    // an advertised method with matching parameters
    void callGood()
    {
        QString method = pickMethod();
        bool server = method == "TunnelProxy.DisconnectClient" || (!method.startsWith("TunnelProxy.Register") && s.chance(1, 3));
        int i = conn(server);
        if (i < 0)
            return;
        Conn &k = w.at(i);
        if (method == "TunnelProxy.RegisterServer" && k.tr == Tr::Ws)
            return;
        int id = w.freshId();
        QJsonObject p = params(method, s.chance(1, 2));
        QByteArray out = render(k, id, method, p, !p.isEmpty() || s.chance(1, 2)); // before the model's state changes
        std::string step = "request";
        good++;
        if (method == "TunnelProxy.RegisterServer") {
            w.regServer(k, id, p["serverUuid"].toString(), p["serverName"].toString());
            step = "register";
        } else if (method == "TunnelProxy.RegisterClient") {
            std::vector<int> sv = w.byState(Conn::Server);
            if (!sv.empty() && s.chance(3, 4)) {
                p["serverUuid"] = w.spell(w.at(s.pick(sv)).uuid);
                out = render(k, id, method, p, true);
            }
            w.regClient(k, id, p["clientUuid"].toString(), p["serverUuid"].toString(), p["clientName"].toString());
            step = "register";
        } else if (method == "TunnelProxy.DisconnectClient") {
            std::vector<int> cl = w.clientsOf(i);
            if (!cl.empty() && s.chance(1, 2)) {
                p["socketAddress"] = w.at(s.pick(cl)).addr;
                out = render(k, id, method, p, true);
            }
            w.disconnectClient(k, id, p["socketAddress"]);
            step = "disconnect";
        } else {
            ExpReply e;
            e.id = id;
            e.what = method;
            if (method == "TunnelProxy.Ping") {
                QJsonValue ts = p["timestamp"];
                e.check = [ts](const QJsonObject &r) { return r["timestamp"] == ts ? QString() : QString("the timestamp is changed"); };
            }
            k.replies.push_back(e);
        }
        addTemplateCheck(k, method);
        c.trace(QString("%1: %2 %3").arg(w.describe(k), method, QString::fromUtf8(QJsonDocument(p).toJson(QJsonDocument::Compact)).left(200)));
        w.transmit(k, out, Chunks());
        w.settle(step);
        notifications += step != "request";
    }

    // an advertised method with parameters that do not match
    void callBad()
    {
        QString method = pickMethod();
        QJsonObject t = doc["methods"].toObject()[method].toObject()["params"].toObject();
        int i = conn(s.chance(1, 3));
        if (i < 0)
            return;
        Conn &k = w.at(i);
        QJsonObject p = params(method, s.chance(1, 2));
        std::vector<int> sv = w.byState(Conn::Server);
        if (p.contains("serverUuid") && method == "TunnelProxy.RegisterClient" && !sv.empty())
            p["serverUuid"] = w.at(s.pick(sv)).uuid.toString();
        if (p.contains("socketAddress") && k.st == Conn::Server && !w.clientsOf(i).empty())
            p["socketAddress"] = w.at(w.clientsOf(i).front()).addr;
        QStringList required;
        for (const QString &key : t.keys()) {
            if (!key.startsWith("o:"))
                required << key;
        }
        QString what;
        bool withParams = true;
        int mode = s.weighted({t.isEmpty() ? 0 : 3, 3, t.isEmpty() ? 0 : 4, required.isEmpty() ? 0 : 1});
        if (mode == 0 && required.isEmpty())
            mode = 1;
        switch (mode) {
        case 0: {
            QString key = required[int(s.draw(uint64_t(required.size())))];
            p.remove(key);
            what = "without " + key;
            break;
        }
        case 1: {
            static const std::vector<QString> extra = {"foo", "", "id", "o:serverName", "servername", "serverUuid ", "name", "params", "$ref:TunnelProxyError"};
            QString key = s.pick(extra);
            if (t.contains(key) || t.contains("o:" + key))
                key = "unknownKey";
            p[key] = s.chance(1, 2) ? QJsonValue(1) : QJsonValue("x");
            what = "with the unknown " + key;
            break;
        }
        case 2: {
            QString key;
            QString type;
            std::vector<QString> ks;
            for (const QString &q : t.keys())
                ks.push_back(q);
            key = s.pick(ks);
            type = t[key].toString();
            QString name = key.startsWith("o:") ? key.mid(2) : key;
            static const std::vector<QJsonValue> odd = {QJsonObject{{"a", 1}}, QJsonArray{1, 2}, QJsonObject(), QJsonArray(), QJsonArray{"x"}, 5, true, 1.5, false};
            std::vector<QJsonValue> ok;
            for (const QJsonValue &v : odd) {
                if (convertible(type, v) == 0)
                    ok.push_back(v);
            }
            if (ok.empty())
                return;
            p[name] = s.pick(ok);
            what = "with " + name + " as " + kindName(p[name]) + " instead of " + type;
            break;
        }
        default:
            withParams = false;
            what = "without params";
            break;
        }
        int id = w.freshId();
        c.trace(QString("%1: %2 %3").arg(w.describe(k), method, what));
        QByteArray out = render(k, id, method, p, withParams);
        bad++;
        w.expectError(k, id, "invalid");
        w.transmit(k, out, Chunks());
        w.settle("invalid");
    }

    void callUnknown()
    {
        int i = conn(s.chance(1, 3));
        if (i < 0)
            return;
        Conn &k = w.at(i);
        QString method;
        static const std::vector<QString> names = {"RemoteProxy.hello", "RemoteProxy.introspect", "RemoteProxy.deleteLater", "TunnelProxy.deleteLater", "TunnelProxy.destroyed", "RemoteProxy.TunnelEstablished", "TunnelProxy.ClientConnected",
            "TunnelProxy.ClientDisconnected", "TunnelProxy.Hello", "RemoteProxy.RegisterServer", "remoteproxy.Hello", "RemoteProxy.Hello()", "RemoteProxy.name", "TunnelProxy.", ".Hello", "RemoteProxy.processData", "RemoteProxy.setup",
            "JSONRPC.Introspect", "RemoteProxy.asyncReplyFinished", "TunnelProxy.objectNameChanged", "RemoteProxy.Hello ", " RemoteProxy.Hello", "Authentication.Authenticate", "TunnelProxy.registerServer"};
        QStringList notes = doc["notifications"].toObject().keys();
        if (!notes.isEmpty() && s.chance(1, 4))
            method = notes[int(s.draw(uint64_t(notes.size())))];
        else
            method = s.chance(2, 3) ? s.pick(names) : (s.chance(1, 2) ? "RemoteProxy." : "TunnelProxy.") + QString::fromLatin1(s.bytes(s.range(1, 12)).toHex().left(8));
        if (doc["methods"].toObject().contains(method))
            return;
        int id = w.freshId();
        QJsonObject p;
        // parameters which fit something that does exist
        QJsonObject asNotification = doc["notifications"].toObject()[method].toObject()["params"].toObject();
        if (!asNotification.isEmpty() && s.chance(3, 4))
            p = fill(asNotification, s.chance(1, 2));
        else if (s.chance(1, 2))
            p = params(pickMethod(), s.chance(1, 2));
        c.trace(QString("%1: %2, which is not advertised").arg(w.describe(k), method));
        QByteArray out = render(k, id, method, p, true);
        unknown++;
        w.expectError(k, id, "invalid");
        w.transmit(k, out, Chunks());
        w.settle("invalid");
    }
};

// ---------------------------------------------------------------- the validator itself, with any template

QVariant genTemplate(Src &s, int depth)
{
    static const std::vector<QString> basics = {"String", "Int", "UInt", "Bool", "Uuid", "Variant", "Object"};
    switch (s.weighted({6, 1, depth > 0 ? 2 : 0, depth > 0 ? 1 : 0})) {
    case 0: return s.pick(basics);
    case 1: return QString("$ref:TunnelProxyError");
    case 2: {
        QVariantMap m;
        int n = s.range(0, 3);
        for (int i = 0; i < n; i++)
            m.insert((s.chance(1, 3) ? "o:" : "") + QString(QChar('a' + i)), genTemplate(s, depth - 1));
        return m;
    }
    default: return QVariantList{genTemplate(s, depth - 1)};
    }
}

const QStringList &errorNames()
{
    static const QStringList l = {"TunnelProxyErrorNoError", "TunnelProxyErrorInvalidUuid", "TunnelProxyErrorInternalServerError", "TunnelProxyErrorServerNotFound", "TunnelProxyErrorForbiddenCall", "TunnelProxyErrorAlreadyRegistered",
        "TunnelProxyErrorNotRegistered", "TunnelProxyErrorUnknownSocketAddress"};
    return l;
}

QVariant genValue(Src &s, const QVariant &t)
{
    if (s.chance(1, 12)) { // something else
        static const std::vector<QVariant> odd = {QString("x"), 5.0, true, QVariantMap{{"a", 1}}, QVariantList{1, 2}, QString("TunnelProxyErrorFoo")};
        return s.pick(odd);
    }
    if (t.type() == QVariant::Map) {
        QVariantMap m;
        QVariantMap tm = t.toMap();
        for (const QString &k : tm.keys()) {
            bool opt = k.startsWith("o:");
            if (s.chance(1, opt ? 3 : 25))
                continue;
            m.insert(opt ? k.mid(2) : k, genValue(s, tm[k]));
        }
        if (s.chance(1, 20))
            m.insert(s.pick<QString>({"z", "o:a", "A"}), 1);
        return m;
    }
    if (t.type() == QVariant::List) {
        QVariantList l;
        int n = s.range(0, 3);
        for (int i = 0; i < n; i++)
            l << genValue(s, t.toList().first());
        return l;
    }
    QString n = t.toString();
    if (n.startsWith("$ref"))
        return errorNames()[int(s.draw(8))];
    if (n == "String")
        return s.unicode(5);
    if (n == "Uuid")
        return QString("{a0b1c2d0-1234-4a5b-8cde-010203040506}");
    if (n == "Bool")
        return s.chance(1, 2);
    if (n == "Int")
        return double(s.range(-5, 5));
    if (n == "UInt")
        return double(s.range(0, 5));
    return QVariantMap{{"q", 1}};
}

// 1 valid, 0 invalid, -1 not specified
int reference(const QVariant &t, const QVariant &v)
{
    if (t.type() == QVariant::Map) {
        if (v.type() != QVariant::Map)
            return -1;
        QVariantMap tm = t.toMap(), m = v.toMap();
        int all = 1;
        for (const QString &k : tm.keys()) {
            bool opt = k.startsWith("o:");
            QString key = opt ? k.mid(2) : k;
            if (!m.contains(key)) {
                if (!opt)
                    return 0;
                continue;
            }
            int r = reference(tm[k], m[key]);
            if (r == 0)
                return 0;
            if (r < 0)
                all = -1;
        }
        for (const QString &k : m.keys()) {
            if (!tm.contains(k) && !tm.contains("o:" + k))
                return 0;
        }
        return all;
    }
    if (t.type() == QVariant::List) {
        if (v.type() != QVariant::List)
            return -1;
        int all = 1;
        for (const QVariant &e : v.toList()) {
            int r = reference(t.toList().first(), e);
            if (r == 0)
                return 0;
            if (r < 0)
                all = -1;
        }
        return all;
    }
    QString n = t.toString();
    if (n.startsWith("$ref"))
        return v.type() == QVariant::String && errorNames().contains(v.toString());
    return convertible(n, QJsonValue::fromVariant(v));
}

void validator(Src &s, Ctx &c)
{
    JsonTypes::allTypes(); // initializes the enums, as the first reply does in the proxy
    int n = s.range(5, 40);
    int ok = 0, no = 0;
    for (int i = 0; i < n; i++) {
        Span sp(s);
        QVariant t;
        do {
            t = genTemplate(s, 3);
        } while (t.type() != QVariant::Map && s.chance(19, 20));
        QVariantMap tm = t.type() == QVariant::Map ? t.toMap() : QVariantMap{{"a", t}};
        QVariant v = genValue(s, tm);
        if (v.type() != QVariant::Map)
            continue;
        int want = reference(tm, v);
        if (want < 0)
            continue;
        QPair<bool, QString> got = JsonTypes::validateMap(tm, v.toMap());
        QString txt = QString::fromUtf8(QJsonDocument::fromVariant(tm).toJson(QJsonDocument::Compact)) + " and " + QString::fromUtf8(QJsonDocument::fromVariant(v).toJson(QJsonDocument::Compact));
        c.trace(txt.left(300) + (want ? " match" : " do not match"));
        if (got.first != bool(want))
            c.fail("validator", QString("the validator says %1 for template and value %2").arg(got.first ? "valid" : "invalid", txt));
        (want ? ok : no)++;
    }
    c.label("template matches", ok);
    c.label("template mismatches", no);
    if (ok && no)
        c.nontrivial();
}

void run(Src &s, Ctx &c)
{
    if (s.chance(1, 8)) {
        validator(s, c);
        return;
    }
    World w(s, c, {"api-", "regreply", "discreply", "errreply", "close-missing:invalid", "close-unexpected@", "notif", "stats-count"});
    w.start();
    Mix m;
    m.warmServers = 1;
    m.warmClients = s.range(0, 2);
    Mixer x(w, m);
    x.warmup();
    Api a{s, c, w, x, QJsonObject()};
    a.fetch();
    int n = s.range(6, 30);
    for (int i = 0; i < n; i++) {
        Span sp(s);
        switch (s.weighted({5, 5, 2, 1, 1})) {
        case 0: a.callGood(); break;
        case 1: a.callBad(); break;
        case 2: a.callUnknown(); break;
        case 3: x.opClose(); break;
        default:
            w.step = "monitor"; // refused requests have registered nobody
            w.checkMonitor(true);
            break;
        }
    }
    w.finish();
    c.label("matching calls", a.good);
    c.label("mismatching calls", a.bad);
    c.label("calls of methods that do not exist", a.unknown);
    if (a.good && a.bad)
        c.nontrivial();
}

// every advertised method, every parameter, every kind of wrong value: one request each
long enumerate(Ctx &c)
{
    long n = 0;
    for (int mode = 0; mode < 3; mode++) {
        Src s(std::vector<uint64_t>(), nullptr);
        World w(s, c, {"api-", "regreply", "discreply", "errreply", "close-", "notif", "stats-count"});
        w.start();
        Mix m;
        Mixer x(w, m);
        int sv = x.newConn(mode == 1 ? Tr::Tcp : Tr::Unix);
        x.regServerNow(sv, w.uuidPool[0], "s");
        Api a{s, c, w, x, QJsonObject()};
        a.fetch();
        for (const QString &method : a.methods()) {
            QJsonObject t = a.doc["methods"].toObject()[method].toObject()["params"].toObject();
            std::vector<QJsonObject> bads;
            QJsonObject base;
            for (const QString &key : t.keys()) {
                QString type = t[key].toString();
                base[key.startsWith("o:") ? key.mid(2) : key] = type == "Uuid" ? QJsonValue(key == "serverUuid" && method.endsWith("RegisterClient") ? w.uuidPool[0].toString() : a.fresh().toString()) : type == "UInt" || type == "Int" ? QJsonValue(1) : type == "Bool" ? QJsonValue(true) : QJsonValue("n");
            }
            QJsonObject ex = base;
            ex["unknown"] = 1;
            bads.push_back(ex);
            for (const QString &key : t.keys()) {
                bool opt = key.startsWith("o:");
                QString name = opt ? key.mid(2) : key;
                if (!opt) {
                    QJsonObject b = base;
                    b.remove(name);
                    bads.push_back(b);
                }
                for (const QJsonValue &v : std::vector<QJsonValue>{QJsonObject{{"a", 1}}, QJsonArray{1, 2}, QJsonObject(), QJsonArray(), QJsonArray{"x"}, 5, true, 1.5}) {
                    if (convertible(t[key].toString(), v) != 0)
                        continue;
                    QJsonObject b = base;
                    b[name] = v;
                    bads.push_back(b);
                }
            }
            for (const QJsonObject &b : bads) {
                int k = x.newConn(mode == 1 ? Tr::Tcp : mode == 2 ? Tr::Ws : Tr::Unix);
                c.trace(method + " " + QString::fromUtf8(QJsonDocument(b).toJson(QJsonDocument::Compact)));
                w.expectError(w.at(k), 17, "invalid");
                w.transmit(w.at(k), w.render(17, method, b, true), Chunks());
                w.settle("invalid");
                n++;
            }
            w.step = "monitor";
            w.checkMonitor(true);
        }
        for (const QString &name : a.doc["notifications"].toObject().keys()) {
            if (a.doc["methods"].toObject().contains(name))
                continue;
            int k = x.newConn(mode == 1 ? Tr::Tcp : mode == 2 ? Tr::Ws : Tr::Unix);
            QJsonObject b = a.fill(a.doc["notifications"].toObject()[name].toObject()["params"].toObject(), true);
            c.trace(name + " " + QString::fromUtf8(QJsonDocument(b).toJson(QJsonDocument::Compact)));
            w.expectError(w.at(k), 17, "invalid");
            w.transmit(w.at(k), w.render(17, name, b, true), Chunks());
            w.settle("invalid");
            n++;
        }
        w.finish();
        c.beat();
    }
    return n;
}
}

Property makeProperty()
{
    Property p;
    p.id = "C10";
    p.rule = "the document returned by Introspect is checked for consistency; then methods it advertises are called with parameters generated from their templates (replies and notifications are compared with the templates), with one parameter missing, unknown or of a JSON type that cannot be converted, and methods it does not advertise are called, on all transports and in control frames. One case in eight feeds generated templates and values to the validator and compares it with a reference. Non-trivial: matching and mismatching calls (or values). Distinct by the session's operations.";
    p.assumptions = {"a parameter is 'not convertible' when its JSON type is: an object or an array for any basic type, a number or boolean for a Uuid; null is not specified"};
    p.run = run;
    p.enumerate = enumerate;
    p.quickCases = 6000;
    p.thoroughCases = 60000;
    return p;
}
