// The proxy under test, in this process.
#pragma once
#include "peer.h"
#include "src.h"
#include <QString>
#include <functional>

namespace remoteproxy { class Engine; class ProxyConfiguration; }

struct SutOptions {
    bool tls = false;
    QString name = "proxy";
    int inactiveTimeout = 8000;
    int jsonRpcTimeout = 10000;
    bool wantTcp = true, wantWs = true; // retry with other ports until these listen
};

class Sut {
public:
    explicit Sut(Ctx &ctx) : m_ctx(ctx) {}
    ~Sut();
    void start(const SutOptions &o);       // picks free endpoints; abandons the case if there are none
    void stop();
    bool started() const { return m_started; }
    remoteproxy::Engine *engine() const;

    QString unixPath, monitorPath;
    int tcpPort = 0, wsPort = 0;
    SutOptions opt;

    // one round of the event loop
    static bool spin();
    static QString dataDir();
    int nextPort();
    remoteproxy::ProxyConfiguration *makeConfig(const SutOptions &o);

private:
    Ctx &m_ctx;
    bool m_started = false;
};
