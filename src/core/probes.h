// Small fixed histories used by the probes for known findings and repaired defects.
#pragma once
#include "mix.h"

struct ProbeWorld {
    Src s;
    World w;
    ProbeWorld(Ctx &c, const std::vector<std::string> &judged, bool tls = false) : s(std::vector<uint64_t>(), nullptr), w(s, c, judged)
    {
        SutOptions o;
        o.tls = tls;
        w.start(o);
    }
    int server(Tr t, int uuid = 0)
    {
        int k = w.connect(t);
        QByteArray out = w.regServer(w.at(k), 1, w.uuidPool[uuid].toString(), "server");
        w.transmit(w.at(k), out, Chunks());
        w.settle("register");
        return k;
    }
    int client(Tr t, int sv, int uuid)
    {
        int k = w.connect(t);
        QByteArray out = w.regClient(w.at(k), 2, w.uuidPool[uuid].toString(), w.at(sv).uuid.toString(), "client");
        w.transmit(w.at(k), out, Chunks());
        w.settle("register");
        return k;
    }
    void send(int k, const QByteArray &b, std::vector<int> cuts = {})
    {
        Chunks ch;
        ch.cuts = cuts;
        w.transmit(w.at(k), b, ch);
    }
};
