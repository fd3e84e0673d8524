// A program of the repository as a process.
#pragma once
#include "src.h"
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>

static inline void nap(int ms)
{
    poll(nullptr, 0, ms);
}

struct Tool {
    QString name;
    QByteArray exe;
    pid_t pid = -1;
    int status = 0;
    bool ended = false;
    int tty = -1;                // our side of its terminal
    QString outFile, errFile;
    QByteArray screenBytes;

    ~Tool()
    {
        if (pid > 0 && !ended) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
        }
        if (tty >= 0)
            ::close(tty);
        unlink(outFile.toLocal8Bit());
        unlink(errFile.toLocal8Bit());
    }
    // a program of the build, by its path in there
    Tool(const QString &n, const char *path) : name(n), exe(QByteArray(VRP_OUT) + path) {}
    Tool(const Tool &) = delete;
    void start(Ctx &c, const QStringList &args, int rows = 0, int cols = 0)
    {
        static int serial = 0;
        serial++;
        outFile = QString::fromStdString(c.scratch) + QString("/out%1").arg(serial);
        errFile = QString::fromStdString(c.scratch) + QString("/err%1").arg(serial);
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        QByteArray o = outFile.toLocal8Bit(), e = errFile.toLocal8Bit();
        std::string slave;
        if (rows) {
            tty = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
            if (tty < 0 || grantpt(tty) != 0 || unlockpt(tty) != 0)
                c.abandon("no pseudo terminal");
            slave = ptsname(tty);
            struct winsize ws;
            memset(&ws, 0, sizeof ws);
            ws.ws_row = (unsigned short) rows;
            ws.ws_col = (unsigned short) cols;
            ioctl(tty, TIOCSWINSZ, &ws);
            fcntl(tty, F_SETFL, O_NONBLOCK);
            posix_spawn_file_actions_addopen(&fa, 0, slave.c_str(), O_RDWR | O_NOCTTY, 0);
            posix_spawn_file_actions_adddup2(&fa, 0, 1);
        } else {
            posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
            posix_spawn_file_actions_addopen(&fa, 1, o.constData(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        }
        posix_spawn_file_actions_addopen(&fa, 2, e.constData(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        std::vector<std::string> keep;
        keep.push_back(exe.toStdString());
        for (const QString &a : args)
            keep.push_back(a.toStdString());
        std::vector<char *> argv;
        for (auto &a : keep)
            argv.push_back(&a[0]);
        argv.push_back(nullptr);
        std::vector<std::string> env = {"PATH=/usr/bin:/bin", "LC_ALL=C.UTF-8", "TZ=UTC", "TERM=vt100", "HOME=" + c.scratch, "LD_LIBRARY_PATH=" VRP_OUT "/libnymea-remoteproxy:" VRP_OUT "/libnymea-remoteproxyclient",
                                        "ASAN_OPTIONS=detect_leaks=0:exitcode=99:detect_odr_violation=0", "UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=99"};
        std::vector<char *> envp;
        for (auto &a : env)
            envp.push_back(&a[0]);
        envp.push_back(nullptr);
        int r = posix_spawn(&pid, keep[0].c_str(), &fa, nullptr, argv.data(), envp.data());
        posix_spawn_file_actions_destroy(&fa);
        if (r != 0) {
            pid = -1;
            c.abandon(name.toStdString() + " cannot be started");
        }
    }
    bool over()
    {
        if (!ended && waitpid(pid, &status, WNOHANG) == pid)
            ended = true;
        return ended;
    }
    void readTty()
    {
        char b[65536];
        ssize_t n;
        while (tty >= 0 && (n = ::read(tty, b, sizeof b)) > 0)
            screenBytes.append(b, int(n));
    }
    static QByteArray slurp(const QString &f)
    {
        QByteArray r;
        int fd = ::open(f.toLocal8Bit(), O_RDONLY);
        char b[65536];
        ssize_t n;
        while (fd >= 0 && (n = ::read(fd, b, sizeof b)) > 0)
            r.append(b, int(n));
        if (fd >= 0)
            ::close(fd);
        return r;
    }
    QByteArray out() { return slurp(outFile); }
    QByteArray err() { return slurp(errFile); }
    QString ending()
    {
        if (WIFSIGNALED(status))
            return QString("signal %1").arg(WTERMSIG(status));
        return QString("exit status %1").arg(WEXITSTATUS(status));
    }
    void checkHealth(Ctx &c)
    {
        if (ended && (WIFSIGNALED(status) || WEXITSTATUS(status) == 99))
            c.fail("tool-crash", name + " ends with " + ending() + "\n" + QString::fromUtf8(err().left(3000)));
    }
};
