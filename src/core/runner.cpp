// Runs one property: probes, enumeration, generated cases on several workers, shrinking, replay, evidence.
#include "src.h"
#include "vclock.h"
#include <QCoreApplication>
#include <QJsonArray>
#include <QJsonDocument>
#include <QJsonObject>
#include <QLoggingCategory>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {

struct WorkerShm {
    volatile uint64_t evaluations;
    volatile uint64_t nontrivial;
    volatile uint64_t abandoned;
    volatile uint64_t done;
    SharedTape tape;
};

struct Outcome {
    enum Kind { Pass, Fail, Abandoned, Hang, Error } kind = Pass;
    std::string cat;
    std::string msg;
    std::vector<uint64_t> tape;
    std::vector<std::pair<uint32_t, uint32_t>> spans;
    uint64_t index = 0;
};

Property g_prop;
std::string g_tier = "quick";
uint64_t g_seed = 1;
std::string g_scratch;
std::string g_root = "/verif";
int g_workers = 8;
double g_wallCap = 0;
bool g_verbose = false;

double nowS() { return vclock::realSecs(); }

template<class T> T *shmAlloc()
{
    void *p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return static_cast<T *>(p);
}

void quiet(QtMsgType t, const QMessageLogContext &, const QString &m)
{
    if (t == QtFatalMsg) {
        fprintf(stderr, "QFATAL: %s\n", qPrintable(m));
        abort();
    }
    if (g_verbose && getenv("VRP_QTLOG"))
        fprintf(stderr, "   | %s\n", qPrintable(m));
}

void rmTree(const std::string &dir)
{
    if (dir.rfind("/tmp/vrp-", 0) != 0)
        return;
    std::string cmd = "rm -rf '" + dir + "'";
    if (system(cmd.c_str())) { }
}

// set up a child process: own scratch directory, quiet logging
void childSetup(Ctx &ctx, int slot, const std::string &errFile)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    signal(SIGINT, SIG_DFL);
    signal(SIGTERM, SIG_DFL);
    setpgid(0, 0);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!g_verbose && !errFile.empty()) {
        int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
    }
    qInstallMessageHandler(quiet);
    ctx.property = g_prop.id;
    ctx.tier = g_tier;
    ctx.worker = slot;
    ctx.verbose = g_verbose;
    ctx.scratch = g_scratch + "/" + std::to_string(slot);
    mkdir(ctx.scratch.c_str(), 0755);
}

struct AppHolder {
    int argc = 1;
    char name[8] = "vrp";
    char *argv[2] = {name, nullptr};
    QCoreApplication *app = nullptr;
    AppHolder() { if (g_prop.needsApp) app = new QCoreApplication(argc, argv); }
};

void store(SharedTape &t, const std::string &cat, const std::string &msg)
{
    snprintf(t.cat, sizeof t.cat, "%s", cat.c_str());
    snprintf(t.msg, sizeof t.msg, "%s", msg.c_str());
}

std::string readFile(const std::string &f)
{
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    return ss.str();
}

std::string crashKind(int status, const std::string &err, std::string &msg)
{
    std::string kind;
    size_t p;
    if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
        size_t b = p + 25, e = err.find_first_of(" \n", b);
        kind = "asan:" + err.substr(b, e - b);
        msg = err.substr(p, 3500);
    } else if ((p = err.find("runtime error: ")) != std::string::npos) {
        size_t ls = err.rfind('\n', p);
        ls = ls == std::string::npos ? 0 : ls + 1;
        kind = "ubsan";
        msg = err.substr(ls, 1500);
    } else if ((p = err.find("QFATAL: ")) != std::string::npos) {
        kind = "fatal";
        msg = err.substr(p, 800);
    } else {
        msg = err.size() > 1500 ? err.substr(err.size() - 1500) : err;
    }
    if (kind.empty())
        kind = WIFSIGNALED(status) ? "signal" + std::to_string(WTERMSIG(status)) : "exit" + std::to_string(WEXITSTATUS(status));
    return "crash:" + kind;
}

double cpuSecs(pid_t pid)
{
    std::string s = readFile("/proc/" + std::to_string(pid) + "/stat");
    size_t p = s.rfind(')');
    if (p == std::string::npos)
        return 0;
    std::istringstream is(s.substr(p + 2));
    std::string f;
    double v = 0;
    for (int i = 0; i < 13 && is >> f; i++) {
        if (i >= 11)
            v += atof(f.c_str());
    }
    return v / sysconf(_SC_CLK_TCK);
}

void killTree(pid_t pid)
{
    kill(-pid, SIGKILL);
    kill(pid, SIGKILL);
}

// Watches one child for progress.
struct Watch {
    pid_t pid = 0;
    uint64_t lastBeat = 0;
    double cpuAt = 0, wallAt = 0;
    void start(pid_t p, double w) { pid = p; cpuAt = 0; wallAt = w; lastBeat = ~0ull; }
    bool hung(uint64_t beat, int cpuLimit)
    {
        double w = nowS();
        if (beat != lastBeat) {
            lastBeat = beat;
            cpuAt = cpuSecs(pid);
            wallAt = w;
            return false;
        }
        if (w - wallAt < 5)
            return false;
        return cpuSecs(pid) - cpuAt > cpuLimit || w - wallAt > cpuLimit + 60;
    }
};

int runCaseInChild(Src &src, Ctx &ctx, SharedTape &t)
{
    ctx.shm = &t;
    ctx.resetCase();
    try {
        g_prop.run(src, ctx);
    } catch (const Violation &v) {
        store(t, v.cat, v.msg);
        return 10;
    } catch (const Abandon &a) {
        store(t, "abandon:" + a.why, "");
        return 11;
    } catch (const std::exception &e) {
        store(t, "harness", e.what());
        return 12;
    }
    return 0;
}

struct Job {
    std::function<int(Ctx &, SharedTape &)> body;
    int cpuLimit = 60;
};

// Run a list of jobs, at most 8 in parallel, each in its own process.
std::vector<Outcome> runJobs(const std::vector<Job> &jobs, int par = 8)
{
    std::vector<Outcome> out(jobs.size());
    static std::vector<WorkerShm *> shms;
    while (int(shms.size()) < par)
        shms.push_back(shmAlloc<WorkerShm>());
    struct Run { pid_t pid = 0; size_t job = 0; Watch w; };
    std::vector<Run> runs(par);
    size_t next = 0, live = 0;
    while (next < jobs.size() || live) {
        for (int s = 0; s < par && next < jobs.size(); s++) {
            if (runs[s].pid)
                continue;
            size_t j = next++;
            SharedTape &t = shms[s]->tape;
            t.len = 0; t.spanCount = 0; t.heartbeat = 0; t.cat[0] = 0; t.msg[0] = 0; t.caseIndex = 0;
            std::string err = g_scratch + "/job" + std::to_string(s) + ".err";
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                Ctx ctx;
                childSetup(ctx, 20 + s, err);
                AppHolder app;
                ctx.shm = &t;
                int rc = jobs[j].body(ctx, t);
                fflush(stderr);
                _exit(rc);
            }
            runs[s].pid = pid;
            runs[s].job = j;
            runs[s].w.start(pid, nowS());
            live++;
        }
        bool any = false;
        for (int s = 0; s < par; s++) {
            Run &r = runs[s];
            if (!r.pid)
                continue;
            int st = 0;
            SharedTape &t = shms[s]->tape;
            Outcome &o = out[r.job];
            pid_t w = waitpid(r.pid, &st, WNOHANG);
            bool finished = false;
            if (w == r.pid) {
                finished = true;
                killTree(r.pid); // leftovers of its process group
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                    o.kind = Outcome::Pass;
                } else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
                    o.kind = Outcome::Fail; o.cat = t.cat; o.msg = t.msg;
                } else if (WIFEXITED(st) && WEXITSTATUS(st) == 11) {
                    o.kind = Outcome::Abandoned; o.cat = t.cat;
                } else if (WIFEXITED(st) && WEXITSTATUS(st) == 12) {
                    o.kind = Outcome::Error; o.cat = t.cat; o.msg = t.msg;
                } else {
                    o.kind = Outcome::Fail;
                    std::string m;
                    o.cat = crashKind(st, readFile(g_scratch + "/job" + std::to_string(s) + ".err"), m);
                    o.msg = m;
                }
            } else if (r.w.hung(t.heartbeat, jobs[r.job].cpuLimit)) {
                killTree(r.pid);
                waitpid(r.pid, &st, 0);
                finished = true;
                o.kind = Outcome::Fail; o.cat = "hang"; o.msg = "the case makes no progress";
            }
            if (finished) {
                o.index = t.caseIndex;
                o.tape.assign(t.tape, t.tape + std::min(uint32_t(t.len), uint32_t(SharedTape::Max)));
                for (uint32_t i = 0; i < t.spanCount; i++)
                    o.spans.push_back({t.spans[2 * i], t.spans[2 * i + 1]});
                r.pid = 0;
                live--;
                any = true;
            }
        }
        if (!any)
            usleep(2000);
    }
    return out;
}

Job tapeJob(const std::vector<uint64_t> &tape)
{
    Job j;
    j.cpuLimit = g_prop.caseCpuLimit;
    j.body = [tape](Ctx &ctx, SharedTape &t) {
        Src src(tape, &t);
        return runCaseInChild(src, ctx, t);
    };
    return j;
}

uint64_t caseSeed(uint64_t i)
{
    uint64_t h = 0;
    for (char c : g_prop.id)
        h = mix64(h ^ uint8_t(c));
    return mix64(mix64(g_seed ^ h) + i);
}

Job historyJob(uint64_t from, uint64_t to, uint64_t stride)
{
    Job j;
    j.cpuLimit = g_prop.caseCpuLimit;
    j.body = [=](Ctx &ctx, SharedTape &t) {
        for (uint64_t i = from; i <= to; i += stride) {
            t.caseIndex = i;
            t.len = 0;
            t.spanCount = 0;
            ctx.beat();
            Src src(caseSeed(i), &t);
            int rc = runCaseInChild(src, ctx, t);
            if (rc != 0 && rc != 11)
                return rc;
        }
        return 0;
    };
    return j;
}

std::string sameKind(const std::string &c)
{
    return c;
}

Outcome shrink(Outcome best, double budget)
{
    double t0 = nowS();
    int rounds = 0;
    auto tryAll = [&](const std::vector<std::vector<uint64_t>> &cands) -> bool {
        for (size_t b = 0; b < cands.size(); b += 8) {
            if (nowS() - t0 > budget)
                return false;
            std::vector<Job> jobs;
            for (size_t i = b; i < std::min(cands.size(), b + 8); i++)
                jobs.push_back(tapeJob(cands[i]));
            auto outs = runJobs(jobs);
            for (auto &o : outs) {
                if (o.kind == Outcome::Fail && sameKind(o.cat) == sameKind(best.cat)
                    && (o.tape.size() < best.tape.size() || (o.tape.size() == best.tape.size() && o.tape < best.tape))) {
                    // accept only if it fails again
                    auto again = runJobs({tapeJob(o.tape)});
                    if (again[0].kind == Outcome::Fail && again[0].cat == best.cat) {
                        best = o;
                        return true;
                    }
                }
            }
        }
        return false;
    };
    bool progress = true;
    while (progress && nowS() - t0 < budget && rounds < 400) {
        progress = false;
        rounds++;
        std::vector<std::vector<uint64_t>> c;
        // delete spans, largest first
        auto spans = best.spans;
        std::sort(spans.begin(), spans.end(), [](const std::pair<uint32_t, uint32_t> &a, const std::pair<uint32_t, uint32_t> &b) {
            return a.second - a.first > b.second - b.first;
        });
        // halves of consecutive spans
        for (auto &s : spans) {
            if (s.second > best.tape.size())
                continue;
            std::vector<uint64_t> v(best.tape.begin(), best.tape.begin() + s.first);
            v.insert(v.end(), best.tape.begin() + s.second, best.tape.end());
            c.push_back(v);
            if (c.size() > 96)
                break;
        }
        if (best.tape.size() > 4) {
            for (size_t f = 2; f <= 8; f *= 2)
                c.push_back(std::vector<uint64_t>(best.tape.begin(), best.tape.begin() + best.tape.size() * (f - 1) / f));
        }
        if (tryAll(c)) {
            progress = true;
            continue;
        }
        c.clear();
        // zero blocks, delete blocks
        for (size_t blk : {32, 8, 2, 1}) {
            if (best.tape.size() / blk > 120)
                continue;
            for (size_t p = 0; p + blk <= best.tape.size(); p += blk) {
                bool nz = false;
                for (size_t k = 0; k < blk; k++)
                    nz |= best.tape[p + k] != 0;
                if (nz) {
                    auto v = best.tape;
                    std::fill(v.begin() + p, v.begin() + p + blk, 0);
                    c.push_back(v);
                }
                auto v = best.tape;
                v.erase(v.begin() + p, v.begin() + p + blk);
                c.push_back(v);
            }
        }
        if (tryAll(c)) {
            progress = true;
            continue;
        }
        c.clear();
        if (best.tape.size() < 300) {
            for (size_t p = 0; p < best.tape.size(); p++) {
                if (best.tape[p] > 1) {
                    auto v = best.tape;
                    v[p] /= 2;
                    c.push_back(v);
                    v = best.tape;
                    v[p] -= 1;
                    c.push_back(v);
                }
            }
        }
        if (tryAll(c))
            progress = true;
    }
    return best;
}

std::map<std::string, std::string> loadKnown()
{
    std::map<std::string, std::string> m; // probe id -> text
    std::ifstream in(g_root + "/known_findings.txt");
    std::string l;
    while (std::getline(in, l)) {
        std::string pre = "finding: property=" + g_prop.id + " id=";
        if (l.rfind(pre, 0) == 0) {
            std::string rest = l.substr(pre.size());
            size_t sp = rest.find(' ');
            m[rest.substr(0, sp)] = sp == std::string::npos ? "" : rest.substr(sp + 1);
        }
    }
    return m;
}

std::string writeReplay(const std::string &body, const Outcome &o)
{
    std::string dir = g_root + "/replays";
    mkdir(dir.c_str(), 0755);
    uint64_t h = 14695981039346656037ull;
    for (char c : body)
        h = (h ^ uint8_t(c)) * 1099511628211ull;
    char name[64];
    snprintf(name, sizeof name, "%s-%08x.tape", g_prop.id.c_str(), unsigned(h & 0xffffffff));
    std::string path = dir + "/" + name;
    std::ofstream f(path);
    f << "property " << g_prop.id << "\n" << "category " << o.cat << "\n" << body << "\n";
    std::istringstream is(o.msg);
    std::string l;
    while (std::getline(is, l))
        f << "# " << l << "\n";
    return path;
}

std::string tapeText(const std::vector<uint64_t> &t)
{
    std::string s = "tape";
    for (uint64_t v : t)
        s += " " + std::to_string(v);
    return s;
}

int replayMode(const std::string &file)
{
    std::ifstream in(file);
    std::string l;
    std::vector<Job> jobs;
    while (std::getline(in, l)) {
        std::istringstream is(l);
        std::string k;
        is >> k;
        if (k == "tape") {
            std::vector<uint64_t> t;
            uint64_t v;
            while (is >> v)
                t.push_back(v);
            jobs.push_back(tapeJob(t));
        } else if (k == "history") {
            uint64_t seed, from, to, stride;
            is >> seed >> from >> to >> stride;
            g_seed = seed;
            jobs.push_back(historyJob(from, to, stride));
        } else if (k == "probe") {
            std::string id;
            is >> id;
            for (auto &p : g_prop.probes) {
                if (p.id == id) {
                    Probe pr = p;
                    Job j;
                    j.body = [pr](Ctx &ctx, SharedTape &t) {
                        try { pr.run(ctx); } catch (const Violation &v) { store(t, v.cat, v.msg); return 10; } catch (const Abandon &a) { store(t, "abandon:" + a.why, ""); return 11; }
                        return 0;
                    };
                    jobs.push_back(j);
                }
            }
        } else if (k == "enumerate") {
            Job j;
            j.cpuLimit = 600;
            j.body = [](Ctx &ctx, SharedTape &t) {
                try { g_prop.enumerate(ctx); } catch (const Violation &v) { store(t, v.cat, v.msg); return 10; }
                return 0;
            };
            jobs.push_back(j);
        }
    }
    int rc = 0;
    for (auto &o : runJobs(jobs, 1)) {
        if (o.kind == Outcome::Fail) {
            printf("FAIL %s\n%s\n", o.cat.c_str(), o.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", g_prop.id.c_str(), file.c_str());
            rc = 1;
        } else {
            printf("replay: no violation (%s)\n", o.kind == Outcome::Pass ? "pass" : o.cat.c_str());
        }
    }
    return rc;
}

struct Flaky { std::string cat, msg; uint64_t index; };

} // namespace

int main(int argc, char **argv)
{
    std::string replay, evidence;
    long casesOverride = -1;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    setenv("QT_NO_GLIB", "1", 1);
    setenv("QT_HASH_SEED", "0", 1);
    setenv("TZ", "UTC", 1);
    unsetenv("QT_LOGGING_RULES");
    if (getenv("VERIF_SEED"))
        g_seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
    if (getenv("VERIF_TIER"))
        g_tier = getenv("VERIF_TIER");
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--replay") replay = val();
        else if (a == "--tier") g_tier = val();
        else if (a == "--seed") g_seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = val();
        else if (a == "--root") g_root = val();
        else if (a == "--cases") casesOverride = atol(val().c_str());
        else if (a == "--workers") g_workers = atoi(val().c_str());
        else if (a == "--cap") g_wallCap = atof(val().c_str());
        else if (a == "--verbose") g_verbose = true;
    }
    g_prop = makeProperty();
    double t0 = nowS();
    char tmpl[64];
    snprintf(tmpl, sizeof tmpl, "/tmp/vrp-%s-XXXXXX", g_prop.id.c_str());
    if (!mkdtemp(tmpl)) {
        perror("mkdtemp");
        return 3;
    }
    g_scratch = tmpl;
    if (!replay.empty()) {
        g_verbose = g_verbose || getenv("VRP_VERBOSE");
        int rc = replayMode(replay);
        rmTree(g_scratch);
        return rc;
    }
    bool thorough = g_tier == "thorough";
    uint64_t cases = thorough ? g_prop.thoroughCases : g_prop.quickCases;
    if (casesOverride >= 0)
        cases = uint64_t(casesOverride);
    if (g_wallCap == 0)
        g_wallCap = thorough ? 1500 : 240;
    g_workers = int(std::max<uint64_t>(1, std::min<uint64_t>(g_workers, cases)));

    int violations = 0;
    std::vector<std::string> lines;
    auto report = [&](const std::string &body, const Outcome &o) {
        std::string path = writeReplay(body, o);
        printf("--- %s: %s\n%s\n", g_prop.id.c_str(), o.cat.c_str(), o.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", g_prop.id.c_str(), path.c_str());
        violations++;
    };

    // 1. probes: known findings and regressions of repaired defects
    auto known = loadKnown();
    QJsonArray probeReport;
    if (!g_prop.probes.empty()) {
        std::vector<Job> jobs;
        for (auto &p : g_prop.probes) {
            Probe pr = p;
            Job j;
            j.body = [pr](Ctx &ctx, SharedTape &t) {
                try { pr.run(ctx); } catch (const Violation &v) { store(t, v.cat, v.msg); return 10; } catch (const Abandon &a) { store(t, "abandon:" + a.why, ""); return 11; }
                return 0;
            };
            jobs.push_back(j);
        }
        auto outs = runJobs(jobs);
        for (size_t i = 0; i < outs.size(); i++) {
            auto &p = g_prop.probes[i];
            bool fails = outs[i].kind == Outcome::Fail;
            if (fails && !known.count(p.id)) {
                // confirm
                auto again = runJobs({jobs[i], jobs[i], jobs[i]}, 1);
                for (auto &o : again)
                    fails = fails && o.kind == Outcome::Fail;
            }
            QJsonObject o;
            o["id"] = QString::fromStdString(p.id);
            o["fails"] = fails;
            o["listed"] = known.count(p.id) > 0;
            probeReport.append(o);
            if (fails && known.count(p.id)) {
                printf("KNOWN-FINDING: property=%s %s: %s\n", g_prop.id.c_str(), p.id.c_str(), known[p.id].c_str());
            } else if (fails) {
                outs[i].msg = p.what + "\n" + outs[i].msg;
                report("probe " + p.id, outs[i]);
            }
        }
    }

    // 2. enumeration
    long enumerated = 0;
    if (g_prop.enumerate && violations == 0) {
        std::string cf = g_scratch + "/enum.count";
        Job j;
        j.cpuLimit = 600;
        j.body = [cf](Ctx &ctx, SharedTape &t) {
            try {
                long n = g_prop.enumerate(ctx);
                std::ofstream(cf) << n;
            } catch (const Violation &v) {
                store(t, v.cat, v.msg);
                return 10;
            } catch (const Abandon &a) {
                store(t, "abandon:" + a.why, "");
                std::ofstream(cf) << 0;
                return 11;
            }
            return 0;
        };
        auto o = runJobs({j});
        if (o[0].kind == Outcome::Fail) {
            auto again = runJobs({j, j});
            if (again[0].kind == Outcome::Fail && again[1].kind == Outcome::Fail)
                report("enumerate", o[0]);
        } else {
            enumerated = atol(readFile(cf).c_str());
        }
    }

    // 3. generated cases
    std::vector<WorkerShm *> shm;
    struct W { pid_t pid = 0; uint64_t first = 0; Watch w; bool finished = false; };
    std::vector<W> ws(g_workers);
    auto spawn = [&](int w, uint64_t first) {
        WorkerShm *s = shm[w];
        s->tape.len = 0; s->tape.spanCount = 0; s->tape.cat[0] = 0; s->tape.msg[0] = 0; s->done = 0;
        std::string err = g_scratch + "/w" + std::to_string(w) + ".err";
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            Ctx ctx;
            childSetup(ctx, w, err);
            AppHolder app;
            std::string tag = std::to_string(w) + "." + std::to_string(first);
            FILE *hf = fopen((g_scratch + "/hash." + tag).c_str(), "wb");
            auto flushLabels = [&]() {
                std::ofstream lf(g_scratch + "/labels." + tag);
                for (auto &l : ctx.labels)
                    lf << l.second << " " << l.first << "\n";
            };
            std::ofstream sf(g_scratch + "/samples." + tag);
            int nsamples = 0;
            double lastFlush = nowS();
            for (uint64_t i = first; i < cases; i += g_workers) {
                if (nowS() - t0 > g_wallCap && s->evaluations > 0)
                    break;
                s->tape.caseIndex = i;
                s->tape.len = 0;
                s->tape.spanCount = 0;
                ctx.beat();
                Src src(caseSeed(i), &s->tape);
                int rc = runCaseInChild(src, ctx, s->tape);
                s->evaluations = s->evaluations + 1;
                if (rc == 10 || rc == 12) {
                    flushLabels();
                    fclose(hf);
                    _exit(rc);
                }
                if (rc == 11) {
                    s->abandoned = s->abandoned + 1;
                    ctx.label(s->tape.cat);
                    if (g_verbose) fprintf(stderr, "case %llu %s\n", (unsigned long long) i, s->tape.cat);
                }
                if (rc == 0 && ctx.isNontrivial) {
                    s->nontrivial = s->nontrivial + 1;
                    fwrite(&ctx.traceHash, 8, 1, hf);
                    fflush(hf);
                    if (nsamples < 2 && ctx.traceText.size() > 40) {
                        nsamples++;
                        QByteArray b = ctx.traceText.left(1500).toUtf8();
                        sf << "case " << i << "\n" << b.constData() << "\x01" << std::flush;
                    }
                }
                if (nowS() - lastFlush > 1) {
                    flushLabels();
                    lastFlush = nowS();
                }
            }
            flushLabels();
            fclose(hf);
            s->done = 1;
            _exit(0);
        }
        ws[w].pid = pid;
        ws[w].first = first;
        ws[w].w.start(pid, nowS());
        ws[w].finished = false;
    };
    std::vector<Flaky> flaky;
    std::string harnessError;
    if (violations == 0 && cases > 0) {
        for (int w = 0; w < g_workers; w++) {
            shm.push_back(shmAlloc<WorkerShm>());
        }
        for (int w = 0; w < g_workers; w++)
            spawn(w, w);
        int live = g_workers;
        while (live > 0) {
            usleep(20000);
            for (int w = 0; w < g_workers; w++) {
                if (!ws[w].pid)
                    continue;
                int st = 0;
                pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
                SharedTape &t = shm[w]->tape;
                Outcome o;
                bool ended = false;
                if (r == ws[w].pid) {
                    killTree(ws[w].pid);
                    ended = true;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                        o.kind = Outcome::Pass;
                    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 10) {
                        o.kind = Outcome::Fail; o.cat = t.cat; o.msg = t.msg;
                    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 12) {
                        o.kind = Outcome::Error; o.cat = t.cat; o.msg = t.msg;
                    } else {
                        o.kind = Outcome::Fail;
                        std::string m;
                        o.cat = crashKind(st, readFile(g_scratch + "/w" + std::to_string(w) + ".err"), m);
                        o.msg = m;
                    }
                } else if (ws[w].w.hung(t.heartbeat, g_prop.caseCpuLimit)) {
                    killTree(ws[w].pid);
                    waitpid(ws[w].pid, &st, 0);
                    ended = true;
                    o.kind = Outcome::Fail; o.cat = "hang"; o.msg = "the case makes no progress";
                }
                if (!ended)
                    continue;
                ws[w].pid = 0;
                live--;
                if (o.kind == Outcome::Pass)
                    continue;
                o.index = t.caseIndex;
                if (o.kind == Outcome::Error) {
                    harnessError = o.msg;
                    continue;
                }
                o.tape.assign(t.tape, t.tape + std::min(uint32_t(t.len), uint32_t(SharedTape::Max)));
                for (uint32_t i = 0; i < t.spanCount; i++)
                    o.spans.push_back({t.spans[2 * i], t.spans[2 * i + 1]});
                for (auto &x : ws)
                    if (x.pid)
                        kill(-x.pid, SIGSTOP);
                double pausedAt = nowS();
                // does it fail again on its own?
                auto again = runJobs({tapeJob(o.tape), tapeJob(o.tape), tapeJob(o.tape)});
                int same = 0;
                for (auto &a : again)
                    same += a.kind == Outcome::Fail;
                bool reported = false;
                if (same == 3) {
                    if (again[0].cat == again[1].cat && again[1].cat == again[2].cat)
                        o = again[0];
                    Outcome m = shrink(o, getenv("VRP_SHRINK") ? atof(getenv("VRP_SHRINK")) : thorough ? 120 : 60);
                    auto fin = runJobs({tapeJob(m.tape), tapeJob(m.tape), tapeJob(m.tape)}, 1);
                    int ok = 0;
                    for (auto &a : fin)
                        ok += a.kind == Outcome::Fail;
                    if (ok < 3) {
                        m = o;
                        fin = runJobs({tapeJob(m.tape), tapeJob(m.tape), tapeJob(m.tape)}, 1);
                        ok = 0;
                        for (auto &a : fin)
                            ok += a.kind == Outcome::Fail;
                    }
                    if (ok == 3) {
                        m.msg = fin[0].msg;
                        m.cat = fin[0].cat;
                        report(tapeText(m.tape), m);
                        reported = true;
                    }
                }
                if (!reported && same == 0 && o.index > ws[w].first) {
                    // perhaps it needs what earlier cases left behind in the process
                    Job h = historyJob(ws[w].first, o.index, g_workers);
                    auto hs = runJobs({h, h, h});
                    int n = 0;
                    for (auto &a : hs)
                        n += a.kind == Outcome::Fail && a.cat == o.cat && a.index == o.index;
                    if (n == 3) {
                        std::ostringstream b;
                        b << "history " << g_seed << " " << ws[w].first << " " << o.index << " " << g_workers;
                        report(b.str(), o);
                        reported = true;
                    }
                }
                if (reported) {
                    for (auto &x : ws)
                        if (x.pid) {
                            killTree(x.pid);
                            waitpid(x.pid, &st, 0);
                            x.pid = 0;
                        }
                    live = 0;
                    break;
                }
                flaky.push_back({o.cat, o.msg, o.index});
                fprintf(stderr, "note: case %llu failed once but not again (%s): %s\n", (unsigned long long) o.index, o.cat.c_str(), o.msg.substr(0, 1500).c_str());
                for (auto &x : ws)
                    if (x.pid) {
                        x.w.wallAt += nowS() - pausedAt;
                        kill(-x.pid, SIGCONT);
                    }
                if (o.index + g_workers < cases && flaky.size() < 8) {
                    spawn(w, o.index + g_workers);
                    live++;
                }
            }
        }
    }

    // evidence
    uint64_t evals = 0, nontriv = 0, abandoned = 0;
    for (auto *s : shm) {
        evals += s->evaluations;
        nontriv += s->nontrivial;
        abandoned += s->abandoned;
    }
    std::set<uint64_t> hashes;
    std::map<std::string, long> labels;
    QJsonArray samples;
    {
        FILE *p = popen(("ls " + g_scratch).c_str(), "r");
        char buf[512];
        while (p && fgets(buf, sizeof buf, p)) {
            std::string n(buf);
            while (!n.empty() && n.back() == '\n')
                n.pop_back();
            std::string full = g_scratch + "/" + n;
            if (n.rfind("hash.", 0) == 0) {
                std::string d = readFile(full);
                for (size_t i = 0; i + 8 <= d.size(); i += 8) {
                    uint64_t h;
                    memcpy(&h, d.data() + i, 8);
                    hashes.insert(h);
                }
            } else if (n.rfind("labels.", 0) == 0) {
                std::ifstream in(full);
                std::string l;
                while (std::getline(in, l)) {
                    size_t sp = l.find(' ');
                    labels[l.substr(sp + 1)] += atol(l.c_str());
                }
            } else if (n.rfind("samples.", 0) == 0 && samples.size() < 6) {
                std::string d = readFile(full);
                size_t b = 0, e;
                while ((e = d.find('\x01', b)) != std::string::npos && samples.size() < 6) {
                    samples.append(QString::fromStdString(d.substr(b, e - b)));
                    b = e + 1;
                }
            }
        }
        if (p)
            pclose(p);
    }
    double wall = nowS() - t0;
    QJsonObject ev, cov, lab;
    for (auto &l : labels)
        lab[QString::fromStdString(l.first)] = double(l.second);
    cov["evaluations"] = double(evals + enumerated);
    cov["distinct_nontrivial"] = double(hashes.size());
    cov["rule"] = QString::fromStdString(g_prop.rule);
    if (samples.isEmpty())
        samples.append("(no sample: the run stopped before a non-trivial case finished)");
    cov["samples"] = samples;
    cov["generated"] = double(evals);
    cov["enumerated"] = double(enumerated);
    cov["set_aside"] = double(abandoned);
    cov["labels"] = lab;
    cov["probes"] = probeReport;
    cov["not_reproduced"] = double(flaky.size());
    ev["property"] = QString::fromStdString(g_prop.id);
    ev["tier"] = QString::fromStdString(thorough ? "thorough" : "quick");
    ev["seed"] = double(g_seed);
    ev["level"] = "exploration";
    ev["coverage"] = cov;
    QJsonArray as;
    for (auto &a : g_prop.assumptions)
        as.append(QString::fromStdString(a));
    ev["assumptions"] = as;
    ev["wall_s"] = wall;
    ev["violations"] = violations;
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << QJsonDocument(ev).toJson().constData();
    }
    printf("%s %s seed=%llu: %llu cases (%zu distinct non-trivial), %ld enumerated, %llu set aside, %zu not reproduced, %d violations, %.1f s\n", g_prop.id.c_str(), g_tier.c_str(),
           (unsigned long long) g_seed, (unsigned long long) evals, hashes.size(), enumerated, (unsigned long long) abandoned, flaky.size(), violations, wall);
    rmTree(g_scratch);
    if (violations)
        return 1;
    if (!harnessError.empty()) {
        fprintf(stderr, "harness error: %s\n", harnessError.c_str());
        return 3;
    }
    return 0;
}
