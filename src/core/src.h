// Choice-sequence source, case context and property registration.
#pragma once
#include <QByteArray>
#include <QString>
#include <QStringList>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

// A violation found by an oracle. 'cat' is the kind of mismatch (stable under shrinking).
struct Violation {
    std::string cat;
    std::string msg;
};
// The case cannot be judged by this property (mismatch that belongs to another property, or environment trouble).
struct Abandon {
    std::string why;
};

// Shared memory between a case process and the runner.
struct SharedTape {
    static const uint32_t Max = 1u << 20;
    volatile uint64_t caseIndex;
    volatile uint32_t len;
    volatile uint64_t heartbeat;
    char cat[128];
    char msg[8192];
    uint32_t spanCount;
    uint64_t tape[Max];
    uint32_t spans[2 * 65536];
};

class Src {
public:
    Src(uint64_t seed, SharedTape *shm) : m_rng(seed), m_replay(false), m_shm(shm) {}
    Src(const std::vector<uint64_t> &tape, SharedTape *shm) : m_rng(0), m_replay(true), m_in(tape), m_shm(shm) {}

    // uniform in 0..n-1; 0 is the simplest choice
    uint64_t draw(uint64_t n);
    // inclusive
    int range(int lo, int hi) { return lo + int(draw(uint64_t(hi - lo) + 1)); }
    // true with probability num/den; false is simplest
    bool chance(int num, int den) { return draw(den) >= uint64_t(den - num); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
    // index by weights; index 0 is simplest
    int weighted(const std::vector<int> &w);
    // size with a skew to small values, sometimes up to max
    int size(int max);
    QByteArray bytes(int n);                  // arbitrary, biased to protocol bytes
    QByteArray large(int max, bool utf8 = false); // cheap on the tape
    QByteArray payload(int max);              // arbitrary bytes with a size() length, several styles
    QByteArray utf8Text(int max);             // valid UTF-8, no BOM at start
    QString unicode(int max);                 // unicode string without lone surrogates
    // spans for the shrinker: an operation's draws
    void beginSpan();
    void endSpan();

    const std::vector<uint64_t> &tape() const { return m_out; }

private:
    uint64_t next();
    uint64_t m_rng;
    bool m_replay;
    std::vector<uint64_t> m_in;
    std::vector<uint64_t> m_out;
    std::vector<uint32_t> m_open;
    size_t m_pos = 0;
    SharedTape *m_shm;
};

struct Span {
    Src &s;
    explicit Span(Src &src) : s(src) { s.beginSpan(); }
    ~Span() { s.endSpan(); }
};

class Ctx {
public:
    std::string property;
    std::string tier;
    std::string scratch; // a private directory of this process
    int worker = 0;
    SharedTape *shm = nullptr;

    [[noreturn]] void fail(const std::string &cat, const QString &msg);
    [[noreturn]] void abandon(const std::string &why);
    void label(const std::string &l, long n = 1) { labels[l] += n; }
    void nontrivial() { isNontrivial = true; }
    void trace(const QString &line);
    void beat() { if (shm) shm->heartbeat = shm->heartbeat + 1; }

    // per case
    QString traceText;
    uint64_t traceHash = 1469598103934665603ull;
    bool isNontrivial = false;
    bool verbose = false;
    // per worker
    std::map<std::string, long> labels;

    void resetCase();
};

struct Probe {
    std::string id;
    std::string what;
    std::function<void(Ctx &)> run; // throws Violation (or crashes) if the defect is there
};

struct Property {
    std::string id;
    std::string rule;
    std::function<void(Src &, Ctx &)> run;
    int quickCases = 1000;
    int thoroughCases = 20000;
    bool needsApp = true;
    std::vector<Probe> probes;
    std::vector<std::string> assumptions;
    // optional deterministic enumeration run once by worker 0 before the cases; returns number of evaluations
    std::function<long(Ctx &)> enumerate;
    // CPU seconds a single case may use before it counts as a hang
    int caseCpuLimit = 60;
};

Property makeProperty(); // each check's driver defines this

// helpers
uint64_t mix64(uint64_t x);
QString hexs(const QByteArray &b, int max = 48);
