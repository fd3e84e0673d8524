#include "sut.h"
#include "engine.h"
#include "vclock.h"
#include <QCoreApplication>
#include <QDir>
#include <QEvent>
#include <QFile>
#include <unistd.h>

using namespace remoteproxy;

static QString certFile, keyFile;

QString Sut::dataDir()
{
    QByteArray root = qgetenv("VRP_DATA");
    return root.isEmpty() ? QString("/verif/data") : QString::fromLocal8Bit(root);
}

int Sut::nextPort()
{
    // a port range per process slot, below the ephemeral ports
    static int k = 0;
    return 10000 + (m_ctx.worker % 40) * 500 + (k++ % 500);
}

Engine *Sut::engine() const
{
    return Engine::instance();
}

bool Sut::spin()
{
    QCoreApplication::processEvents(QEventLoop::AllEvents);
    QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
    return true;
}

ProxyConfiguration *Sut::makeConfig(const SutOptions &o)
{
    ProxyConfiguration *c = nullptr;
    c = new ProxyConfiguration();
    if (o.tls) {
        // the certificate is only read by loadConfiguration
        QString f = QString::fromStdString(m_ctx.scratch) + "/tls.conf";
        QFile file(f);
        if (file.open(QIODevice::WriteOnly)) {
            file.write("[SSL]\nenabled=true\ncertificate=" + (dataDir() + "/cert.pem").toLocal8Bit() + "\ncertificateKey=" + (dataDir() + "/key.pem").toLocal8Bit() + "\ncertificateChain=\n");
            file.close();
        }
        if (!c->loadConfiguration(f)) {
            delete c;
            m_ctx.abandon("tls-config");
        }
    }
    c->setServerName(o.name);
    c->setWriteLogFile(false);
    c->setLogEngineEnabled(false);
    c->setMonitorSocketFileName(monitorPath);
    c->setUnixSocketFileName(unixPath);
    c->setSslEnabled(o.tls);
    c->setInactiveTimeout(o.inactiveTimeout);
    c->setJsonRpcTimeout(o.jsonRpcTimeout);
    c->setTcpServerTunnelProxyHost(QHostAddress::LocalHost);
    c->setTcpServerTunnelProxyPort(quint16(tcpPort));
    c->setWebSocketServerTunnelProxyHost(QHostAddress::LocalHost);
    c->setWebSocketServerTunnelProxyPort(quint16(wsPort));
    return c;
}

void Sut::start(const SutOptions &o)
{
    opt = o;
    QString dir = QString::fromStdString(m_ctx.scratch);
    unixPath = dir + "/u";
    monitorPath = dir + "/m";
    for (int attempt = 0; attempt < 60; attempt++) {
        if (attempt == 0 && tcpPort == 0) {
            tcpPort = nextPort();
            wsPort = nextPort();
        }
        Engine::instance()->start(makeConfig(o));
        m_started = true;
        for (int i = 0; i < 3; i++)
            spin();
        bool tcpOk = !o.wantTcp || Engine::instance()->tcpSocketServerTunnelProxy()->running();
        bool wsOk = !o.wantWs || Engine::instance()->webSocketServerTunnelProxy()->running();
        if (tcpOk && wsOk)
            return;
        Engine::instance()->stop();
        tcpPort = nextPort();
        wsPort = nextPort();
    }
    m_ctx.abandon("no-free-port");
}

void Sut::stop()
{
    if (!m_started)
        return;
    m_started = false;
    Engine::instance()->stop();
    for (int i = 0; i < 3; i++)
        spin();
}

Sut::~Sut()
{
    stop();
}
