// Simulation runtime linked into an instrumented build of the repository's C++ extension.
//
// The repository's own BF*.cc are compiled with clang's thread-sanitizer *instrumentation* but linked against this
// file instead of the tsan runtime.  Every memory access of the repository's native code therefore calls back here:
// it is checked against the simulated heap (red zones, freed blocks) and it is a point where the seeded scheduler may
// switch to another simulated thread.  Compiled evaluations (XLA custom calls) run on fibers; everything holding the
// GIL runs on the host stack.  malloc/free, operator new/delete and pthread locks of the instrumented objects are
// redirected here with objcopy --redefine-syms.
#include <Python.h>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <deque>
#include <map>
#include <new>
#include <string>
#include <ucontext.h>
#include <unordered_map>
#include <vector>
#include <pthread.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace {

// ------------------------------------------------------------------------------------------------ simulated heap
struct Chunk {
    uintptr_t user;
    size_t size;
    bool live;
    char *base;
};
constexpr size_t RZ = 64;
constexpr size_t QUARANTINE = 192u << 20;
typedef std::map<uintptr_t, Chunk> Heap;
Heap &heap() {
    static Heap *h = new Heap();
    return *h;
}
std::deque<uintptr_t> &quarantine() {
    static auto *q = new std::deque<uintptr_t>();
    return *q;
}
size_t quarantined = 0;
uintptr_t lastLo = 1, lastHi = 0; // one-entry cache of a live chunk

uint64_t nAlloc = 0, nFree = 0, nAccess = 0;
int64_t failCountdown = -1; // >=0: allocation number countdown to failure
uint64_t nFailed = 0;
uint64_t allocWindow = 0;

std::string *firstError = nullptr;
uint64_t nErrors = 0;
void report(const std::string &what) {
    nErrors++;
    if (!firstError) {
        firstError = new std::string(what);
        fprintf(stderr, "SIM-ERROR %s\n", what.c_str()); // in case the process does not survive the error
        fflush(stderr);
    }
}

// Functions of the binding library (pybind11) in the extension, by address: its own allocations never fail, because
// what it does then is not the repository's doing.
std::vector<std::pair<uintptr_t, bool>> *symbols = nullptr;
uintptr_t extBase = 0;
bool inBinding(void *ra) {
    if (!symbols) {
        symbols = new std::vector<std::pair<uintptr_t, bool>>();
        Dl_info i;
        if (dladdr(ra, &i) && i.dli_fname) {
            extBase = (uintptr_t)i.dli_fbase;
            std::string f(i.dli_fname);
            f = f.substr(0, f.rfind('/') + 1) + "BF.syms";
            if (FILE *fp = fopen(f.c_str(), "r")) {
                unsigned long a;
                int b;
                while (fscanf(fp, "%lx %d", &a, &b) == 2)
                    symbols->push_back({a, b != 0});
                fclose(fp);
            }
        }
    }
    uintptr_t a = (uintptr_t)ra - extBase;
    size_t lo = 0, hi = symbols->size();
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        if ((*symbols)[m].first <= a)
            lo = m + 1;
        else
            hi = m;
    }
    return lo > 0 && (*symbols)[lo - 1].second;
}

bool shouldFail(void *ra) {
    if (inBinding(ra))
        return false;
    allocWindow++;
    if (failCountdown < 0)
        return false;
    if (failCountdown == 0) {
        failCountdown = -1;
        nFailed++;
        return true;
    }
    failCountdown--;
    return false;
}

pthread_mutex_t heapLock = PTHREAD_MUTEX_INITIALIZER;
struct HeapGuard {
    HeapGuard() { pthread_mutex_lock(&heapLock); }
    ~HeapGuard() { pthread_mutex_unlock(&heapLock); }
};

void *rawAlloc(size_t size, size_t align) {
    HeapGuard g;
    if (align < 16)
        align = 16;
    size_t rz = RZ < align ? align : RZ;
    char *base = (char *)malloc(size + 2 * rz + align);
    if (!base)
        return nullptr;
    uintptr_t u = ((uintptr_t)base + rz + align - 1) / align * align;
    memset(base, 0xFA, size + 2 * rz + align);
    // deterministic garbage for uninitialised reads
    memset((void *)u, 0xC7, size);
    heap()[u] = Chunk{u, size, true, base};
    nAlloc++;
    return (void *)u;
}

void rawFree(void *p) {
    if (!p)
        return;
    HeapGuard g;
    lastLo = 1;
    lastHi = 0;
    auto it = heap().find((uintptr_t)p);
    if (it == heap().end()) {
        // not ours: memory obtained elsewhere
        free(p);
        return;
    }
    if (!it->second.live) {
        report("double free of a native heap block of " + std::to_string(it->second.size) + " bytes");
        return;
    }
    it->second.live = false;
    memset(p, 0xDB, it->second.size);
    nFree++;
    quarantine().push_back(it->first);
    quarantined += it->second.size + 2 * RZ;
    while (quarantined > QUARANTINE && !quarantine().empty()) {
        auto q = heap().find(quarantine().front());
        quarantine().pop_front();
        quarantined -= q->second.size + 2 * RZ;
        free(q->second.base);
        heap().erase(q);
    }
}

// ------------------------------------------------------------------------------------------------ scheduler
typedef void *(*Fn5)(void *, void **, const char *, size_t, void *);
struct Fiber {
    int id;
    Fn5 fn;
    void *a0;
    void **a1;
    const char *a2;
    size_t a3;
    void *a4;
    void *ret = nullptr;
    ucontext_t ctx;
    ucontext_t *resumer = nullptr;
    char *stack = nullptr;
    bool done = false, started = false;
    void *blockedOn = nullptr;
    bool blockedExclusive = false;
    uint64_t steps = 0;
};

bool simActive = false;
Fiber *current = nullptr; // nullptr: host
std::vector<Fiber *> fibers; // unfinished fibers
int nextFiberId = 0;
int hostDepth = 0;        // native code running on the host stack under sim
int noPreempt = 0;
uint64_t stepCount = 0;
int64_t gapLeft = -1; // accesses until the next switch; -1 never
std::vector<int> plan;  // gap, choice, gap, choice, ...
size_t planPos = 0;
uint64_t nSwitchToHost = 0, nSwitchToFiber = 0, nHook = 0, nFibers = 0, nBlocked = 0, maxActive = 0;
uint64_t traceHash = 1469598103934665603ull;
uint64_t maxSteps = 50000000ull;
void mix(uint64_t v) {
    traceHash ^= v;
    traceHash *= 1099511628211ull;
}
int (*hook)(int) = nullptr;
pthread_t simThread;

void nextGap() {
    if (planPos + 1 < plan.size()) {
        gapLeft = plan[planPos];
    } else
        gapLeft = -1;
}
int takeChoice() {
    int c = 0;
    if (planPos + 1 < plan.size())
        c = plan[planPos + 1];
    planPos += 2;
    nextGap();
    return c;
}

void fiberMain(unsigned lo, unsigned hi) {
    Fiber *f = (Fiber *)(((uintptr_t)hi << 32) | lo);
    try {
        f->ret = f->fn(f->a0, f->a1, f->a2, f->a3, f->a4);
    } catch (const std::exception &e) {
        report(std::string("exception escaped a compiled evaluation: ") + e.what());
    } catch (...) {
        report("exception escaped a compiled evaluation");
    }
    f->done = true;
    for (size_t k = 0; k < fibers.size(); k++)
        if (fibers[k] == f) {
            fibers.erase(fibers.begin() + k);
            break;
        }
    mix(0xD0 + f->id);
    current = nullptr;
    ucontext_t *r = f->resumer;
    f->resumer = nullptr;
    setcontext(r);
}

// run fiber until it is preempted, blocks or finishes; returns on the caller's stack
void resume(Fiber *f) {
    ucontext_t here;
    Fiber *saved = current;
    f->resumer = &here;
    current = f;
    mix(0x100 + f->id);
    mix(stepCount);
    swapcontext(&here, &f->ctx);
    current = saved;
}

void fiberYield() {
    Fiber *f = current;
    ucontext_t *r = f->resumer;
    f->resumer = nullptr;
    current = nullptr;
    mix(0x200 + f->id);
    swapcontext(&f->ctx, r);
}

struct LockState {
    std::vector<int> readers; // actor ids
    int writer = -1;          // actor id, -1 none
    int depth = 0;
};
// actors: fiber id + 1, host = 0
std::map<void *, LockState> &locks() {
    static auto *l = new std::map<void *, LockState>();
    return *l;
}
int actor() { return current ? current->id + 1 : 0; }

std::vector<Fiber *> runnable() {
    std::vector<Fiber *> r;
    for (Fiber *f : fibers) {
        if (f == current || f->resumer)
            continue; // running below us on the stack
        if (!f->started)
            continue;
        if (f->blockedOn) {
            LockState &l = locks()[f->blockedOn];
            bool ok = f->blockedExclusive ? (l.writer < 0 && l.readers.empty()) : l.writer < 0;
            if (!ok)
                continue;
        }
        r.push_back(f);
    }
    return r;
}

bool onSimThreadContext() { return simActive && noPreempt == 0; }

void maybeSwitch() {
    stepCount++;
    if (current)
        current->steps++;
    if (gapLeft < 0)
        return;
    if (gapLeft-- > 0)
        return;
    if (current) {
        int c = takeChoice();
        mix(c);
        nSwitchToHost++;
        fiberYield();
    } else if (hostDepth > 0) {
        auto r = runnable();
        int c = takeChoice();
        if (r.empty())
            return;
        mix(c);
        nSwitchToFiber++;
        resume(r[(unsigned)c % r.size()]);
    } else
        takeChoice();
}

bool tryLock(void *m, bool excl) {
    LockState &l = locks()[m];
    if (excl) {
        if (l.writer >= 0 || !l.readers.empty())
            return false;
        l.writer = actor();
    } else {
        if (l.writer >= 0)
            return false;
        l.readers.push_back(actor());
    }
    return true;
}

void lockIt(void *m, bool excl) {
    if (simActive)
        maybeSwitch();
    int spins = 0;
    while (!tryLock(m, excl)) {
        nBlocked++;
        if (current) {
            Fiber *f = current;
            f->blockedOn = m;
            f->blockedExclusive = excl;
            mix(0x300 + f->id);
            fiberYield();
            f->blockedOn = nullptr;
        } else {
            auto r = runnable();
            if (r.empty() || ++spins > 1000000) {
                report("deadlock: the thread holding the interpreter waits for a native lock that no runnable thread "
                       "will release");
                // break the deadlock so that the run can be reported
                locks()[m] = LockState();
                continue;
            }
            mix(0x400);
            resume(r[0]);
        }
    }
}

void unlockIt(void *m) {
    LockState &l = locks()[m];
    int a = actor();
    if (l.writer == a) {
        l.writer = -1;
    } else {
        bool found = false;
        for (size_t k = 0; k < l.readers.size(); k++)
            if (l.readers[k] == a) {
                l.readers.erase(l.readers.begin() + k);
                found = true;
                break;
            }
        if (!found && l.writer >= 0)
            l.writer = -1;
    }
    if (simActive)
        maybeSwitch();
}

inline void access(uintptr_t a, size_t n, bool write) {
    nAccess++;
    // the switch comes first: the access itself happens after whatever the other threads do in between
    if (simActive && noPreempt == 0)
        maybeSwitch();
    if (!(a >= lastLo && a + n <= lastHi)) {
        HeapGuard g;
        Heap &h = heap();
        auto it = h.upper_bound(a + RZ); // first chunk with user > a+RZ
        if (it != h.begin()) {
            --it;
            Chunk &c = it->second;
            if (a + n > c.user - RZ && a < c.user + c.size + RZ) {
                bool inside = a >= c.user && a + n <= c.user + c.size;
                if (!c.live && inside) {
                    report(std::string(write ? "write to" : "read of") + " freed native memory (offset " +
                           std::to_string((long)(a - c.user)) + " of a block of " + std::to_string(c.size) + " bytes)");
                } else if (!inside) {
                    // may belong to the previous chunk's user area when chunks are adjacent: chunks never overlap
                    report(std::string(write ? "write" : "read") + " outside a native heap block (offset " +
                           std::to_string((long)(a - c.user)) + " of a block of " + std::to_string(c.size) + " bytes)");
                } else {
                    lastLo = c.user;
                    lastHi = c.user + c.size;
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ trampolines
std::vector<Fn5> realFns;

void *runSim(Fn5 fn, void *a0, void **a1, const char *a2, size_t a3, void *a4) {
    if (!simActive)
        return fn(a0, a1, a2, a3, a4);
    Fiber *f = new Fiber();
    f->id = nextFiberId++;
    f->fn = fn;
    f->a0 = a0;
    f->a1 = a1;
    f->a2 = a2;
    f->a3 = a3;
    f->a4 = a4;
    f->stack = (char *)malloc(512 * 1024);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = 512 * 1024;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, (void (*)())fiberMain, 2, (unsigned)((uintptr_t)f & 0xffffffffu),
                (unsigned)((uintptr_t)f >> 32));
    Fiber *savedCurrent = current;
    int savedDepth = hostDepth;
    current = nullptr;
    hostDepth = 0;
    fibers.push_back(f);
    nFibers++;
    if (fibers.size() > maxActive)
        maxActive = fibers.size();
    f->started = true;
    int idle = 0;
    while (!f->done) {
        bool mayRun = true;
        if (f->blockedOn) {
            LockState &l = locks()[f->blockedOn];
            mayRun = f->blockedExclusive ? (l.writer < 0 && l.readers.empty()) : l.writer < 0;
        }
        if (mayRun && !f->resumer) {
            resume(f);
            idle = 0;
        } else {
            auto r = runnable();
            if (r.empty()) {
                report("deadlock: a compiled evaluation waits for a native lock that is never released");
                locks().clear();
                continue;
            }
            resume(r[0]);
            if (++idle > 1000000) {
                report("livelock among compiled evaluations");
                break;
            }
        }
        if (f->done)
            break;
        // preempted: let a thread holding the interpreter act
        if (hook && !f->blockedOn) {
            nHook++;
            int what = hook(f->id);
            mix(0x500 + what);
            if (what == 0) { // no more interpreter work: perhaps advance another paused evaluation
                auto r = runnable();
                if (r.size() > 1)
                    resume(r[stepCount % r.size()]);
            }
        }
    }
    void *ret = f->ret;
    free(f->stack);
    delete f;
    current = savedCurrent;
    hostDepth = savedDepth;
    return ret;
}

// completed compiled evaluations: the unit of simulated work for timing checks
std::atomic<uint64_t> nCalls{0};
std::atomic<int> callDelay{0}; // real microseconds, so that an unfinished computation is visibly unfinished

template <int N> void *tramp(void *a0, void **a1, const char *a2, size_t a3, void *a4) {
    int d = callDelay.load();
    if (d > 0)
        usleep(d);
    void *r = runSim(realFns[N], a0, a1, a2, a3, a4);
    nCalls++;
    return r;
}
template <int... I> void *pick(int k, std::integer_sequence<int, I...>) {
    static void *t[] = {(void *)&tramp<I>...};
    return t[k];
}
constexpr int NTRAMP = 32;

} // namespace

// ------------------------------------------------------------------------------------------------ heap entry points
EXPORT void *sim_malloc(size_t n) {
    if (shouldFail(__builtin_return_address(0))) {
        errno = ENOMEM;
        return nullptr;
    }
    return rawAlloc(n, 16);
}
EXPORT void *sim_calloc(size_t n, size_t m) {
    if (shouldFail(__builtin_return_address(0))) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = rawAlloc(n * m, 16);
    if (p)
        memset(p, 0, n * m);
    return p;
}
EXPORT void sim_free(void *p) { rawFree(p); }
EXPORT void *sim_realloc(void *p, size_t n) {
    if (!p) {
        if (shouldFail(__builtin_return_address(0))) {
            errno = ENOMEM;
            return nullptr;
        }
        return rawAlloc(n, 16);
    }
    if (shouldFail(__builtin_return_address(0))) {
        errno = ENOMEM;
        return nullptr;
    }
    size_t old = 0;
    {
        HeapGuard g;
        auto it = heap().find((uintptr_t)p);
        if (it == heap().end())
            return realloc(p, n);
        old = it->second.size;
    }
    void *q = rawAlloc(n, 16);
    memcpy(q, p, old < n ? old : n);
    rawFree(p);
    return q;
}
EXPORT void *sim_new(size_t n) {
    if (shouldFail(__builtin_return_address(0)))
        throw std::bad_alloc();
    return rawAlloc(n, 16);
}
EXPORT void *sim_new_nothrow(size_t n, const std::nothrow_t &) {
    if (shouldFail(__builtin_return_address(0)))
        return nullptr;
    return rawAlloc(n, 16);
}
EXPORT void *sim_new_align(size_t n, size_t al) {
    if (shouldFail(__builtin_return_address(0)))
        throw std::bad_alloc();
    return rawAlloc(n, al);
}
EXPORT void sim_delete(void *p) { rawFree(p); }
EXPORT void sim_delete_sz(void *p, size_t) { rawFree(p); }
EXPORT void sim_delete_al(void *p, size_t) { rawFree(p); }
EXPORT void sim_delete_sz_al(void *p, size_t, size_t) { rawFree(p); }

EXPORT void *sim_newa(size_t n) {
    if (shouldFail(__builtin_return_address(0)))
        throw std::bad_alloc();
    return rawAlloc(n, 16);
}
EXPORT void *sim_newa_nothrow(size_t n, const std::nothrow_t &) {
    if (shouldFail(__builtin_return_address(0)))
        return nullptr;
    return rawAlloc(n, 16);
}
EXPORT void *sim_newa_align(size_t n, size_t al) {
    if (shouldFail(__builtin_return_address(0)))
        throw std::bad_alloc();
    return rawAlloc(n, al);
}
EXPORT void sim_deletea(void *p) { rawFree(p); }
EXPORT void sim_deletea_sz(void *p, size_t) { rawFree(p); }
EXPORT void sim_deletea_al(void *p, size_t) { rawFree(p); }
EXPORT void sim_deletea_sz_al(void *p, size_t, size_t) { rawFree(p); }

// ------------------------------------------------------------------------------------------------ locks
EXPORT int sim_mutex_lock(pthread_mutex_t *m) {
    lockIt(m, true);
    return 0;
}
EXPORT int sim_mutex_trylock(pthread_mutex_t *m) { return tryLock(m, true) ? 0 : EBUSY; }
EXPORT int sim_mutex_unlock(pthread_mutex_t *m) {
    unlockIt(m);
    return 0;
}
EXPORT int sim_mutex_destroy(pthread_mutex_t *m) {
    locks().erase(m);
    return 0;
}
EXPORT int sim_rdlock(pthread_rwlock_t *m) {
    lockIt(m, false);
    return 0;
}
EXPORT int sim_tryrdlock(pthread_rwlock_t *m) { return tryLock(m, false) ? 0 : EBUSY; }
EXPORT int sim_wrlock(pthread_rwlock_t *m) {
    lockIt(m, true);
    return 0;
}
EXPORT int sim_trywrlock(pthread_rwlock_t *m) { return tryLock(m, true) ? 0 : EBUSY; }
EXPORT int sim_rwunlock(pthread_rwlock_t *m) {
    unlockIt(m);
    return 0;
}
EXPORT int sim_rwlock_destroy(pthread_rwlock_t *m) {
    locks().erase(m);
    return 0;
}

// ------------------------------------------------------------------------------------------------ interpreter lock
EXPORT PyGILState_STATE sim_PyGILState_Ensure() {
    // A compiled evaluation that asks for the interpreter lock has to wait while a thread holding it is in native code.
    while (simActive && current && hostDepth > 0)
        fiberYield();
    noPreempt++;
    return PyGILState_Ensure();
}
EXPORT void sim_PyGILState_Release(PyGILState_STATE s) {
    PyGILState_Release(s);
    noPreempt--;
}

// ------------------------------------------------------------------------------------------------ capsules
EXPORT PyObject *sim_PyCapsule_New(void *p, const char *name, PyCapsule_Destructor d) {
    if (name && strcmp(name, "xla._CUSTOM_CALL_TARGET") == 0) {
        int k = -1;
        for (size_t j = 0; j < realFns.size(); j++)
            if ((void *)realFns[j] == p)
                k = j;
        if (k < 0 && realFns.size() < NTRAMP) {
            realFns.push_back((Fn5)p);
            k = realFns.size() - 1;
        }
        if (k >= 0)
            p = pick(k, std::make_integer_sequence<int, NTRAMP>());
    }
    return PyCapsule_New(p, name, d);
}

// ------------------------------------------------------------------------------------------------ tsan callbacks
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                                          \
    EXPORT void __tsan_read##N(void *a) { access((uintptr_t)a, N, false); }                                            \
    EXPORT void __tsan_write##N(void *a) { access((uintptr_t)a, N, true); }                                            \
    EXPORT void __tsan_read_write##N(void *a) { access((uintptr_t)a, N, true); }                                       \
    EXPORT void __tsan_unaligned_read##N(void *a) { access((uintptr_t)a, N, false); }                                  \
    EXPORT void __tsan_unaligned_write##N(void *a) { access((uintptr_t)a, N, true); }                                  \
    EXPORT void __tsan_unaligned_read_write##N(void *a) { access((uintptr_t)a, N, true); }                             \
    EXPORT void __tsan_volatile_read##N(void *a) { access((uintptr_t)a, N, false); }                                   \
    EXPORT void __tsan_volatile_write##N(void *a) { access((uintptr_t)a, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_vptr_update(void **a, void *) { access((uintptr_t)a, 8, true); }
EXPORT void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false); }
EXPORT void __tsan_read_range(void *a, size_t n) {
    if (n)
        access((uintptr_t)a, n, false);
}
EXPORT void __tsan_write_range(void *a, size_t n) {
    if (n)
        access((uintptr_t)a, n, true);
}
static void *copyInTwo(void *d, const void *s, size_t n) {
    if (n) {
        access((uintptr_t)s, n, false);
        access((uintptr_t)d, n, true);
    }
    bool apart = (char *)d + n <= (const char *)s || (const char *)s + n <= (char *)d;
    if (n < 16 || !apart)
        return memmove(d, s, n);
    // in two halves, so that a switch in between is possible for overlapping users of the target
    size_t h = n / 2 & ~(size_t)7;
    memcpy(d, s, h);
    access((uintptr_t)s + h, n - h, false);
    access((uintptr_t)d + h, n - h, true);
    memcpy((char *)d + h, (const char *)s + h, n - h);
    return d;
}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { return copyInTwo(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { return copyInTwo(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, size_t n) {
    if (n)
        access((uintptr_t)d, n, true);
    return memset(d, c, n);
}
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}
#define AT(B, T)                                                                                                       \
    EXPORT T __tsan_atomic##B##_load(const volatile T *a, int) {                                                       \
        access((uintptr_t)a, sizeof(T), false);                                                                        \
        return *a;                                                                                                     \
    }                                                                                                                  \
    EXPORT void __tsan_atomic##B##_store(volatile T *a, T v, int) {                                                    \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        *a = v;                                                                                                        \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##B##_exchange(volatile T *a, T v, int) {                                                    \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        T o = *a;                                                                                                      \
        *a = v;                                                                                                        \
        return o;                                                                                                      \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) {                                                   \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        T o = *a;                                                                                                      \
        *a = o + v;                                                                                                    \
        return o;                                                                                                      \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) {                                                   \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        T o = *a;                                                                                                      \
        *a = o - v;                                                                                                    \
        return o;                                                                                                      \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) {                                                   \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        T o = *a;                                                                                                      \
        *a = o & v;                                                                                                    \
        return o;                                                                                                      \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) {                                                    \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        T o = *a;                                                                                                      \
        *a = o | v;                                                                                                    \
        return o;                                                                                                      \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) {                                                   \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        T o = *a;                                                                                                      \
        *a = o ^ v;                                                                                                    \
        return o;                                                                                                      \
    }                                                                                                                  \
    EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                        \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        if (*a == *c) {                                                                                                \
            *a = v;                                                                                                    \
            return 1;                                                                                                  \
        }                                                                                                              \
        *c = *a;                                                                                                       \
        return 0;                                                                                                      \
    }                                                                                                                  \
    EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int n) {                      \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, n);                                              \
    }                                                                                                                  \
    EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                              \
        access((uintptr_t)a, sizeof(T), true);                                                                         \
        T o = *a;                                                                                                      \
        if (o == c)                                                                                                    \
            *a = v;                                                                                                    \
        return o;                                                                                                      \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

// ------------------------------------------------------------------------------------------------ control interface
EXPORT void sim_begin(const int *p, int n, int (*h)(int)) {
    plan.assign(p, p + n);
    planPos = 0;
    nextGap();
    hook = h;
    stepCount = 0;
    nextFiberId = 0;
    nSwitchToHost = nSwitchToFiber = nHook = nFibers = nBlocked = maxActive = 0;
    traceHash = 1469598103934665603ull;
    simActive = true;
    hostDepth = 0;
    current = nullptr;
}
EXPORT void sim_end() {
    simActive = false;
    hook = nullptr;
}
// native code called by a thread holding the GIL: switches to paused evaluations are allowed inside
EXPORT void sim_host_enter() { hostDepth++; }
EXPORT void sim_host_exit() { hostDepth--; }
EXPORT void sim_stats(uint64_t *o) {
    o[0] = stepCount;
    o[1] = nSwitchToHost;
    o[2] = nSwitchToFiber;
    o[3] = nHook;
    o[4] = nFibers;
    o[5] = nBlocked;
    o[6] = maxActive;
    o[7] = traceHash;
    o[8] = nErrors;
    o[9] = nAlloc;
    o[10] = nFree;
    o[11] = nFailed;
    o[12] = allocWindow;
    o[13] = nAccess;
    o[14] = realFns.size();
    o[15] = planPos;
}
EXPORT int sim_error(char *buf, int n) {
    if (!firstError)
        return 0;
    snprintf(buf, n, "%s", firstError->c_str());
    return 1;
}
EXPORT void sim_clear_error() {
    delete firstError;
    firstError = nullptr;
    nErrors = 0;
}
EXPORT uint64_t sim_calls() { return nCalls.load(); }
EXPORT void sim_call_delay(int us) { callDelay = us; }
EXPORT void sim_fail_at(int64_t n) {
    failCountdown = n;
    allocWindow = 0;
}
