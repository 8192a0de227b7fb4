#pragma once
#include <csignal>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "util.h"

// A part of a run in a process of its own: nothing of the engine has been used in it before. What `child` returns
// comes back; a death of the child is a death of the run.
inline std::string InFreshProcess(const std::function<std::string()>& child, const std::function<void()>& onDeath = nullptr, int* exited = nullptr) {
    int pf[2];
    if (pipe(pf) != 0) _exit(3);
    pid_t pid = fork();
    if (pid == 0) {
        close(pf[0]);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string out;
        try {
            out = child();
        } catch (const std::exception& e) {
            dprintf(2, "terminate called in the simulator: %s\n", e.what());
            abort();
        }
        size_t off = 0;
        while (off < out.size()) {
            ssize_t n = write(pf[1], out.data() + off, out.size() - off);
            if (n <= 0) _exit(3);
            off += static_cast<size_t>(n);
        }
        if (write(pf[1], "\x01" "END", 4) < 0) _exit(3);
        _exit(0);
    }
    close(pf[1]);
    std::string out;
    char b[65536];
    ssize_t n;
    while ((n = read(pf[0], b, sizeof b)) > 0) out.append(b, static_cast<size_t>(n));
    close(pf[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    bool whole = out.size() >= 4 && out.compare(out.size() - 4, 4, "\x01" "END") == 0;
    if (exited) *exited = whole ? 1 : 0;
    if (whole) return out.substr(0, out.size() - 4);
    if (exited && WIFEXITED(st) && WEXITSTATUS(st) == 0) return out;  // left early on purpose
    if (onDeath) onDeath();
    if (WIFSIGNALED(st)) {
        signal(WTERMSIG(st), SIG_DFL);
        kill(getpid(), WTERMSIG(st));
    }
    _exit(WIFEXITED(st) && WEXITSTATUS(st) != 0 ? WEXITSTATUS(st) : 3);
}

struct Bytes {
    std::string s;
    size_t at = 0;
    void putU(uint64_t v) { s.append(reinterpret_cast<const char*>(&v), 8); }
    uint64_t getU() {
        uint64_t v = 0;
        if (at + 8 <= s.size()) memcpy(&v, s.data() + at, 8);
        at += 8;
        return v;
    }
    void put(const std::string& t) {
        putU(t.size());
        s += t;
    }
    std::string get() {
        size_t n = getU();
        if (at + n > s.size()) return "";
        std::string t = s.substr(at, n);
        at += n;
        return t;
    }
    void put(const Report& r) {
        putU(r.names.size());
        for (auto& x : r.names) put(x);
        putU(r.data.size());
        for (auto& d : r.data) {
            putU(d.size());
            s.append(reinterpret_cast<const char*>(d.data()), d.size() * sizeof(double));
        }
    }
    Report getReport() {
        Report r;
        size_t n = getU();
        for (size_t i = 0; i < n && at < s.size(); ++i) r.names.push_back(get());
        n = getU();
        for (size_t i = 0; i < n && at < s.size(); ++i) {
            size_t k = getU();
            std::vector<double> d(k);
            if (at + k * sizeof(double) <= s.size() && k) memcpy(d.data(), s.data() + at, k * sizeof(double));
            at += k * sizeof(double);
            r.data.push_back(std::move(d));
        }
        return r;
    }
};
