// Built without instrumentation (see sched.h).
#include "sched.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sched {
constexpr int kMax = 8;
static volatile int g_on = 0;       // a simulation is running
static volatile int g_turn[kMax];   // futex words: 1 = this thread holds the baton
static volatile int g_alive[kMax], g_blocked[kMax];
static void* volatile g_waits[kMax];
static volatile int g_current = -1, g_n = 0;
static volatile uint64_t g_rng = 0, g_progress = 0, g_tick = 0;
static Options g_opt;
static Stats g_stats;
static int g_prio[kMax];
static long g_change[16];
static thread_local int t_self = -1;
static thread_local int t_busy = 0;

static long Futex(volatile int* w, int op, int val, const timespec* ts) {
    return syscall(SYS_futex, const_cast<int*>(w), op, val, ts, nullptr, 0);
}
static uint64_t Rand() {
    uint64_t z = g_rng += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static double RandU() { return static_cast<double>(Rand() >> 11) * (1.0 / 9007199254740992.0); }
bool Inside() { return g_on && t_self >= 0; }
int Self() { return t_self; }
uint64_t Tick() { return ++g_tick; }

static void Give(int to) {
    g_current = to;
    ++g_progress;
    __sync_synchronize();
    g_turn[to] = 1;
    Futex(&g_turn[to], FUTEX_WAKE, 1, nullptr);
}
static int PickOther(int self, bool mayStay) {
    int cand[kMax], k = 0;
    for (int i = 0; i < g_n; ++i)
        if (g_alive[i] && !g_blocked[i] && (mayStay || i != self)) cand[k++] = i;
    if (k == 0) return -1;
    if (g_opt.mode == 1) {
        int best = cand[0];
        for (int i = 1; i < k; ++i)
            if (g_prio[cand[i]] > g_prio[best]) best = cand[i];
        return best;
    }
    return cand[Rand() % static_cast<uint64_t>(k)];
}
// Waits for the baton. If its holder makes no progress for long (it waits for something the scheduler does not see:
// a spin lock, a condition variable) another thread goes on beside it.
static void Wait(int self) {
    uint64_t seen = g_progress;
    int stuck = 0;
    while (!__sync_bool_compare_and_swap(&g_turn[self], 1, 0)) {
        timespec ts{0, 250000000};
        Futex(&g_turn[self], FUTEX_WAIT, 0, &ts);
        if (g_turn[self]) continue;
        if (g_progress != seen) {
            seen = g_progress;
            stuck = 0;
        } else if (++stuck >= 6 && !g_blocked[self] && __sync_bool_compare_and_swap(&g_progress, seen, seen + 1)) {
            ++g_stats.steals;
            g_current = self;
            return;
        }
    }
}
static void Note(int to) { g_stats.hash = (g_stats.hash ^ static_cast<uint64_t>(to + 1)) * 1099511628211ULL; }
static void Switch(int self, int to) {
    Note(to);
    if (to == self) return;
    ++g_stats.switches;
    Give(to);
    Wait(self);
}
// The baton may have been taken from this thread while it was stuck.
static void Hold(int self) {
    if (g_current != self) Wait(self);
    else g_turn[self] = 0;
}
static void Point(double p) {
    int self = t_self;
    if (!g_on || self < 0 || t_busy) return;
    t_busy = 1;
    Hold(self);
    ++g_stats.yields;
    if (g_opt.mode == 1) {
        for (int i = 0; i < g_opt.changes && i < 16; ++i)
            if (g_change[i] == g_stats.yields) g_prio[self] = -1 - i;
        int to = PickOther(self, true);
        if (to >= 0) Switch(self, to);
    } else if (p >= 1 || RandU() < p) {
        int to = PickOther(self, true);
        if (to >= 0) Switch(self, to);
    }
    t_busy = 0;
}
void Yield() { Point(g_opt.pSwitch); }
void YieldAlloc() {
    if (!g_on || t_self < 0 || t_busy || g_opt.pAlloc <= 0) return;
    if (RandU() < g_opt.pAlloc) Point(1);
}
static void Deadlock() {
    static const char m[] = "HBSIM-DEADLOCK: every thread waits\n";
    if (write(2, m, sizeof m - 1) < 0) {}
    _exit(88);
}
static void BlockOn(void* what) {
    int self = t_self;
    t_busy = 1;
    Hold(self);
    g_waits[self] = what;
    g_blocked[self] = 1;
    ++g_stats.blocks;
    int to = PickOther(self, false);
    if (to < 0) Deadlock();
    Switch(self, to);
    t_busy = 0;
}
static void WakeAll(void* what) {
    for (int i = 0; i < g_n; ++i)
        if (g_blocked[i] && g_waits[i] == what) g_blocked[i] = 0;
}

struct Start {
    int i;
    Body body;
    void* arg;
};
static void* Main(void* p) {
    Start* s = static_cast<Start*>(p);
    t_self = s->i;
    t_busy = 1;
    Wait(s->i);
    t_busy = 0;
    s->body(s->arg, s->i);
    t_busy = 1;
    Hold(s->i);
    g_alive[s->i] = 0;
    int to = PickOther(s->i, false);
    if (to >= 0) {
        Note(to);
        Give(to);
    } else {
        for (int i = 0; i < g_n; ++i)
            if (g_alive[i]) Deadlock();
    }
    t_self = -1;
    return nullptr;
}
Stats Run(int n, Body body, void* arg, const Options& o) {
    g_opt = o;
    g_stats = Stats();
    g_rng = o.seed * 0x9e3779b97f4a7c15ULL + 77;
    g_n = n < kMax ? n : kMax;
    Start st[kMax];
    pthread_t th[kMax];
    for (int i = 0; i < g_n; ++i) {
        g_turn[i] = 0;
        g_alive[i] = 1;
        g_blocked[i] = 0;
        g_prio[i] = 100 + i;
        st[i] = Start{i, body, arg};
    }
    for (int i = g_n; i > 1; --i) {
        int k = static_cast<int>(Rand() % static_cast<uint64_t>(i));
        int t = g_prio[i - 1];
        g_prio[i - 1] = g_prio[k];
        g_prio[k] = t;
    }
    for (int i = 0; i < 16; ++i) g_change[i] = 1 + static_cast<long>(Rand() % static_cast<uint64_t>(o.horizon > 0 ? o.horizon : 1));
    g_on = 1;
    for (int i = 0; i < g_n; ++i)
        if (pthread_create(&th[i], nullptr, Main, &st[i]) != 0) abort();
    int first = PickOther(-1, true);
    Note(first);
    Give(first);
    for (int i = 0; i < g_n; ++i) pthread_join(th[i], nullptr);
    g_on = 0;
    return g_stats;
}

// ---- locks and other points seen through the C library's symbols ------------------------------------------
struct Held {
    void* m;
    int owner;   // writer, or -2: readers
    int depth;
};
static Held g_held[64];
static Held* Find(void* m) {
    for (auto& h : g_held)
        if (h.m == m) return &h;
    return nullptr;
}
static void Take(void* m, int owner) {
    Held* h = Find(m);
    if (!h) h = Find(nullptr);
    if (!h) return;
    if (h->m != m) *h = Held{m, owner, 0};
    ++h->depth;
}
static void Drop(void* m) {
    Held* h = Find(m);
    if (h && --h->depth <= 0) {
        h->m = nullptr;
        WakeAll(m);
    }
}
static bool On() { return g_on && t_self >= 0 && !t_busy; }
static void Acquire(void* m, bool shared) {
    Point(g_opt.pSwitch);
    for (;;) {
        Held* h = Find(m);
        if (!h || h->owner == t_self || (shared && h->owner == -2)) break;
        BlockOn(m);
    }
    Take(m, shared ? -2 : t_self);
}
template <typename F>
static F Next(const char* name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}  // namespace sched

using namespace sched;
#define REAL(name) \
    static decltype(&name) real; \
    if (!real) real = Next<decltype(&name)>(#name)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    REAL(pthread_mutex_lock);
    if (On()) Acquire(m, false);
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    REAL(pthread_mutex_trylock);
    bool on = On();
    if (on) Point(g_opt.pSwitch);
    int rc = real(m);
    if (on && rc == 0) Take(m, t_self);
    return rc;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    REAL(pthread_mutex_unlock);
    bool on = On();
    int rc = real(m);
    if (on) {
        Drop(m);
        Point(g_opt.pSwitch);
    }
    return rc;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    REAL(pthread_rwlock_wrlock);
    if (On()) Acquire(m, false);
    return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    REAL(pthread_rwlock_rdlock);
    if (On()) Acquire(m, true);
    return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    REAL(pthread_rwlock_unlock);
    bool on = On();
    int rc = real(m);
    if (on) {
        Drop(m);
        Point(g_opt.pSwitch);
    }
    return rc;
}
int sched_yield(void) noexcept {
    REAL(sched_yield);
    if (On()) Point(1);
    return real();
}
// Function-local statics: the first thread to come initialises, the others wait.
int __cxa_guard_acquire(uint64_t* g) {
    static int (*real)(uint64_t*);
    if (!real) real = Next<int (*)(uint64_t*)>("__cxa_guard_acquire");
    bool on = On();
    if (on && !*reinterpret_cast<volatile char*>(g)) {
        Point(g_opt.pSwitch);
        for (;;) {
            Held* h = Find(g);
            if (!h || h->owner == t_self) break;
            BlockOn(g);
        }
    }
    int rc = real(g);
    if (on && rc) Take(g, t_self);
    return rc;
}
void __cxa_guard_release(uint64_t* g) noexcept {
    static void (*real)(uint64_t*);
    if (!real) real = Next<void (*)(uint64_t*)>("__cxa_guard_release");
    real(g);
    if (On()) {
        Drop(g);
        Point(g_opt.pSwitch);
    }
}
void __cxa_guard_abort(uint64_t* g) noexcept {
    static void (*real)(uint64_t*);
    if (!real) real = Next<void (*)(uint64_t*)>("__cxa_guard_abort");
    real(g);
    if (On()) {
        Drop(g);
        Point(g_opt.pSwitch);
    }
}
}
