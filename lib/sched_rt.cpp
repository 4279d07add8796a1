// Controlled scheduler and happens-before race detector.
//
// The code under test is compiled with -fsanitize=thread, but linked against this file instead of the sanitizer's
// runtime: every memory access and atomic operation calls into the functions below; pthread operations are interposed.
// Exactly one controlled thread runs at any time.  Before every synchronisation operation the running thread asks the
// explorer which thread is to continue (default: itself, or the next runnable one if it cannot); every other answer
// costs one deviation, of which there are boundedly many.  Blocking operations are modelled (mutex ownership, waiting
// sets of condition variables), so a state without a runnable thread is a deadlock.  Vector clocks over the
// synchronisation operations find conflicting, unordered plain accesses.
#include "sched_rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <vector>

extern char __data_start, _end;
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
}
namespace
{
const int NT = 6;
const int MAXSTEP = 200000, FAIR = 400;
struct VC
{
    uint32_t c[NT];
};
enum Wait
{
    RUNNABLE,
    MUTEX,
    COND,
    JOIN,
    SLEEP,
    FINISHED
};
struct Thread
{
    Wait w = RUNNABLE;
    void* obj = nullptr;    // what it waits for
    void* mutex = nullptr;  // mutex to get back after a condition variable
    bool timed = false, timedOut = false;
    int joinTarget = -1;
    int64_t wakeUp = 0;
    VC vc;
    sem_t sem;
    pthread_t handle;
    bool joined = false;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
};
struct Mutex
{
    int owner = -1;
    int depth = 0;
    VC vc;
    Mutex() { memset(&vc, 0, sizeof vc); }
};
bool active = false;
sched::Options opt;
sched::Stats stats;
Thread* th[NT];
int64_t vnow = 0;
const int64_t EPOCH = 1600000000;
int nThreads = 0, current = 0, dev = 0, stepCount = 0, consecutive = 0;
std::map<void*, Mutex>* mutexes;
std::map<void*, VC>* atomics;
uintptr_t objLo = 0, objHi = 0;
thread_local int tid = -1;
thread_local int quiet = 0;

struct Cell
{
    uint32_t w[NT], r[NT];
    uint8_t wm[NT], rm[NT];
};
struct Page
{
    uintptr_t key;
    Page* next;
    Page* all;
    Cell c[128];  // 1 KB of memory
};
const int HB = 1 << 16;
Page** table = nullptr;
Page* allPages = nullptr;
Page* freePages = nullptr;
thread_local Page* last = nullptr;
thread_local uint64_t lastGen = 0;
uint64_t gen = 1;

template <class T>
T real(const char* n)
{
    static_assert(sizeof(T) == sizeof(void*), "");
    return (T)dlsym(RTLD_NEXT, n);
}
#define REAL(name) \
    static auto real_##name = real<decltype(&name)>(#name)

void status()
{
    const char* n[] = {"runnable", "waiting for a mutex", "waiting for a condition variable", "joining", "sleeping", "finished"};
    for (int i = 0; i < nThreads; i++)
        fprintf(stderr, "  thread %d: %s\n", i, n[th[i]->w]);
}
[[noreturn]] void die(const char* what)
{
    active = false;
    fprintf(stderr, "%s\n", what);
    status();
    fflush(stderr);
    abort();
}
Page* page(uintptr_t key)
{
    if (last && lastGen == gen && last->key == key)
        return last;
    size_t h = (key * 0x9e3779b97f4a7c15ull) >> 48;
    for (Page* p = table[h]; p; p = p->next)
        if (p->key == key)
        {
            last = p;
            lastGen = gen;
            return p;
        }
    Page* p = freePages;
    if (p)
        freePages = p->all;
    else
        p = (Page*)__real_malloc(sizeof(Page));
    __real_memset(p, 0, sizeof(Page));
    p->key = key;
    p->next = table[h];
    table[h] = p;
    p->all = allPages;
    allPages = p;
    last = p;
    lastGen = gen;
    return p;
}
[[noreturn]] void race(uintptr_t a, bool w, int u, bool uw, void* pc)
{
    char b[400];
    char where[100] = "";
    if (a >= objLo && a < objHi)
        snprintf(where, sizeof where, " (offset %zu of the observed object)", (size_t)(a - objLo));
    Dl_info di;
    const char* sym = dladdr(pc, &di) && di.dli_sname ? di.dli_sname : "";
    snprintf(b, sizeof b, "DATA RACE: %s by thread %d%s not ordered with %s by thread %d, at pc %p %.150s", w ? "write" : "read", tid, where,
        uw ? "write" : "read", u, pc, sym);
    die(b);
}
inline void access(uintptr_t a, size_t n, bool w, void* pc)
{
    if (!active || tid < 0 || quiet)
        return;
    stats.accesses++;
    VC& me = th[tid]->vc;
    while (n)
    {
        uintptr_t g = a >> 3;
        unsigned off = a & 7, len = n < 8 - off ? (unsigned)n : 8 - off;
        uint8_t m = (uint8_t)(((1u << len) - 1) << off);
        Cell& c = page(g >> 7)->c[g & 127];
        for (int u = 0; u < nThreads; u++)
        {
            if (u == tid)
                continue;
            if (c.w[u] > me.c[u] && (c.wm[u] & m))
                race(a, w, u, true, pc);
            if (w && c.r[u] > me.c[u] && (c.rm[u] & m))
                race(a, w, u, false, pc);
        }
        uint32_t now = me.c[tid];
        if (w)
        {
            c.wm[tid] = c.w[tid] == now ? c.wm[tid] | m : m;
            c.w[tid] = now;
        }
        else
        {
            c.rm[tid] = c.r[tid] == now ? c.rm[tid] | m : m;
            c.r[tid] = now;
        }
        a += len;
        n -= len;
    }
}
void resetRange(uintptr_t a, size_t n)
{
    if (!active || tid < 0 || quiet || !n)
        return;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++)
        __real_memset(&page(g >> 7)->c[g & 127], 0, sizeof(Cell));
}
void join(VC& a, const VC& b)
{
    for (int i = 0; i < NT; i++)
        if (b.c[i] > a.c[i])
            a.c[i] = b.c[i];
}
struct Quiet
{
    Quiet() { quiet++; }
    ~Quiet() { quiet--; }
};

bool canRun(int t)
{
    Thread& T = *th[t];
    switch (T.w)
    {
        case RUNNABLE: return true;
        case MUTEX: return (*mutexes)[T.obj].owner < 0;
        case JOIN: return th[T.joinTarget]->w == FINISHED;
        case SLEEP: return vnow >= T.wakeUp;
        default: return false;
    }
}
void handTo(int t)
{
    int me = tid;
    current = t;
    consecutive = 0;
    stats.switches++;
    sem_post(&th[t]->sem);
    if (th[me]->w == FINISHED)
        return;
    while (sem_wait(&th[me]->sem) != 0) {}
}
// decide who continues; returns when the calling thread is scheduled again
// mustLeave: the default is to let others go first (yield)
void schedule(bool mustLeave = false)
{
    Quiet q;
    stats.points++;
    if (++stepCount > MAXSTEP)
        die("NO PROGRESS: step limit of one execution exceeded");
    int me = tid;
    int order[2 * NT], n = 0;
    bool wake[2 * NT];
    if (++consecutive > FAIR)
        mustLeave = true;
    int first = -1;
    for (int i = 0; i < nThreads; i++)  // a sleeper whose time has come goes first
        if (th[i]->w == SLEEP && vnow >= th[i]->wakeUp && (first < 0 || th[i]->wakeUp < th[first]->wakeUp))
            first = i;
    if (first >= 0)
        ;
    else if (canRun(me) && !mustLeave)
        first = me;
    else
        for (int i = 1; i <= nThreads; i++)
        {
            int t = (me + i) % nThreads;
            if (canRun(t) && (t != me))
            {
                first = t;
                break;
            }
        }
    if (first < 0 && canRun(me))
        first = me;
    if (first < 0)  // let the time pass until the first sleeper wakes up
    {
        for (int i = 0; i < nThreads; i++)
            if (th[i]->w == SLEEP && (first < 0 || th[i]->wakeUp < th[first]->wakeUp))
                first = i;
        if (first >= 0)
            vnow = th[first]->wakeUp;
    }
    if (first < 0)  // only a time-out can help
        for (int i = 0; i < nThreads && first < 0; i++)
            if (th[i]->w == COND && th[i]->timed)
            {
                th[i]->timedOut = true;
                th[i]->w = MUTEX;
                th[i]->obj = th[i]->mutex;
                if (canRun(i))
                    first = i;
            }
    if (first < 0)
    {
        bool all = true;
        for (int i = 0; i < nThreads; i++)
            all &= th[i]->w == FINISHED;
        if (all)
            return;
        die("DEADLOCK: no thread can continue");
    }
    order[n] = first;
    wake[n++] = false;
    int pickIdx = 0;
    if (dev > 0)
    {
        for (int i = 0; i < nThreads; i++)
        {
            int t = (me + i) % nThreads;
            if (t != first && canRun(t))
            {
                order[n] = t;
                wake[n++] = false;
            }
        }
        for (int t = 0; t < nThreads; t++)
            if (th[t]->w == COND && (opt.spurious || th[t]->timed) && (*mutexes)[th[t]->mutex].owner < 0)
            {
                order[n] = t;
                wake[n++] = true;
            }
        if (n > 1)
            pickIdx = opt.choose(n);
        if (pickIdx)
            dev--;
    }
    int t = order[pickIdx];
    if (wake[pickIdx])
    {
        th[t]->timedOut = th[t]->timed;
        th[t]->w = MUTEX;
        th[t]->obj = th[t]->mutex;
    }
    if (t != me)
        handTo(t);
}
bool ctl() { return active && tid >= 0 && !quiet; }

void* trampoline(void* p)
{
    Thread* T = (Thread*)p;
    int id = -1;
    for (int i = 0; i < nThreads; i++)
        if (th[i] == T)
            id = i;
    while (sem_wait(&T->sem) != 0) {}
    tid = id;
    quiet = 0;
    T->ret = T->fn(T->arg);
    Quiet q;
    T->w = FINISHED;
    T->vc.c[id]++;
    quiet--;
    schedule();
    quiet++;
    tid = -1;
    return T->ret;
}
// atomic operations: op is executed by the caller after the scheduling point
void atomicPoint(void* a, size_t size)
{
    if (!ctl())
        return;
    uintptr_t p = (uintptr_t)a;
    if (p >= objLo && p < objHi)
        schedule();
    else if (size != 4 && !(p >= (uintptr_t)&__data_start && p < (uintptr_t)&_end))
        schedule();
}
bool isAcq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
bool isRel(int o) { return o == 3 || o == 4 || o == 5; }
void afterLoad(void* a, int o)
{
    if (!ctl() || !isAcq(o))
        return;
    Quiet q;
    auto it = atomics->find(a);
    if (it != atomics->end())
        join(th[tid]->vc, it->second);
}
void afterStore(void* a, int o)
{
    if (!ctl())
        return;
    Quiet q;
    VC& v = (*atomics)[a];
    if (isRel(o))
    {
        v = th[tid]->vc;
        th[tid]->vc.c[tid]++;
    }
    else
        __real_memset(&v, 0, sizeof v);
}
void afterRmw(void* a, int o)
{
    if (!ctl())
        return;
    Quiet q;
    auto it = atomics->find(a);
    if (it == atomics->end())
    {
        VC z;
        __real_memset(&z, 0, sizeof z);
        it = atomics->insert(std::make_pair(a, z)).first;
    }
    if (isAcq(o))
        join(th[tid]->vc, it->second);
    if (isRel(o))
    {
        join(it->second, th[tid]->vc);
        th[tid]->vc.c[tid]++;
    }
}
void onAlloc(void* p, size_t n)
{
    if (!active || tid < 0 || quiet || !p)
        return;
    resetRange((uintptr_t)p, malloc_usable_size(p));
    if (opt.objectSize && n == opt.objectSize)
    {
        objLo = (uintptr_t)p;
        objHi = objLo + n;
    }
}
void onFree(void* p, void* pc)
{
    if (!active || tid < 0 || quiet || !p)
        return;
    access((uintptr_t)p, malloc_usable_size(p), true, pc);
}
void acquireMutex(void* m)
{
    Mutex& M = (*mutexes)[m];
    M.owner = tid;
    M.depth = 1;
    join(th[tid]->vc, M.vc);
}
void releaseMutex(void* m)
{
    Mutex& M = (*mutexes)[m];
    M.owner = -1;
    M.depth = 0;
    join(M.vc, th[tid]->vc);
    th[tid]->vc.c[tid]++;
}
int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
    Quiet q;
    Mutex& M = (*mutexes)[m];
    if (M.owner != tid)
        die("condition variable: the waiting thread does not hold the mutex");
    quiet--;
    schedule();
    quiet++;
    releaseMutex(m);
    Thread& T = *th[tid];
    T.w = COND;
    T.obj = c;
    T.mutex = m;
    T.timed = timed;
    T.timedOut = false;
    quiet--;
    schedule();
    quiet++;
    T.w = RUNNABLE;
    T.timed = false;
    acquireMutex(m);
    return T.timedOut ? ETIMEDOUT : 0;
}
int condSignal(pthread_cond_t* c, bool all)
{
    schedule();
    Quiet q;
    int w[NT], n = 0;
    for (int i = 0; i < nThreads; i++)
        if (th[i]->w == COND && th[i]->obj == c)
            w[n++] = i;
    if (!n)
        return 0;
    if (all)
        for (int i = 0; i < n; i++)
        {
            th[w[i]]->w = MUTEX;
            th[w[i]]->obj = th[w[i]]->mutex;
        }
    else
    {
        int k = 0;
        if (n > 1 && dev > 0)
        {
            k = opt.choose(n);
            if (k)
                dev--;
        }
        th[w[k]]->w = MUTEX;
        th[w[k]]->obj = th[w[k]]->mutex;
    }
    return 0;
}
}  // namespace

namespace sched
{
int64_t now() { return vnow; }
void ignore(bool on) { quiet += on ? 1 : -1; }
void begin(const Options& o)
{
    if (!table)
    {
        table = (Page**)calloc(HB, sizeof(Page*));
        mutexes = new std::map<void*, Mutex>();
        atomics = new std::map<void*, VC>();
    }
    for (Page* p = allPages; p;)
    {
        Page* n = p->all;
        table[(p->key * 0x9e3779b97f4a7c15ull) >> 48] = nullptr;
        p->all = freePages;
        freePages = p;
        p = n;
    }
    allPages = nullptr;
    gen++;
    mutexes->clear();
    atomics->clear();
    opt = o;
    stats = Stats();
    dev = o.deviations;
    stepCount = consecutive = 0;
    objLo = objHi = 0;
    vnow = 0;
    for (int i = 0; i < NT; i++)
    {
        if (!th[i])
        {
            th[i] = new Thread();
            sem_init(&th[i]->sem, 0, 0);
        }
        th[i]->w = RUNNABLE;
        th[i]->joined = false;
        th[i]->joinTarget = -1;
        th[i]->timed = th[i]->timedOut = false;
        memset(&th[i]->vc, 0, sizeof(VC));
        th[i]->vc.c[i] = 1;
    }
    nThreads = 1;
    current = 0;
    tid = 0;
    quiet = 0;
    active = true;
}
Stats end()
{
    for (int i = 1; i < nThreads; i++)
        if (!th[i]->joined)
            die("a thread was neither joined nor finished");
    stats.threads = nThreads;
    stats.deviations = opt.deviations - dev;
    active = false;
    tid = -1;
    return stats;
}
}  // namespace sched

extern "C" {
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    REAL(pthread_create);
    if (!ctl())
        return real_pthread_create(h, at, fn, arg);
    schedule();
    Quiet q;
    if (nThreads >= NT)
        die("more threads than the checker can handle");
    int id = nThreads++;
    Thread& T = *th[id];
    T.w = RUNNABLE;
    T.fn = fn;
    T.arg = arg;
    join(T.vc, th[tid]->vc);
    T.vc.c[id]++;
    th[tid]->vc.c[tid]++;
    int r = real_pthread_create(h, at, trampoline, &T);
    if (r)
        die("pthread_create failed");
    T.handle = *h;
    return 0;
}
int pthread_join(pthread_t h, void** ret)
{
    REAL(pthread_join);
    if (!ctl())
        return real_pthread_join(h, ret);
    int t = -1;
    for (int i = 1; i < nThreads; i++)
        if (!th[i]->joined && pthread_equal(th[i]->handle, h))
            t = i;
    if (t < 0)
        return ESRCH;
    Thread& T = *th[tid];
    T.w = JOIN;
    T.joinTarget = t;
    schedule();
    T.w = RUNNABLE;
    Quiet q;
    join(T.vc, th[t]->vc);
    th[t]->joined = true;
    return real_pthread_join(h, ret);
}
int pthread_detach(pthread_t h)
{
    REAL(pthread_detach);
    if (ctl())
        die("a controlled thread was detached");
    return real_pthread_detach(h);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_lock);
    if (!ctl())
        return real_pthread_mutex_lock(m);
    Thread& T = *th[tid];
    {
        Quiet q;
        Mutex& M = (*mutexes)[m];
        if (M.owner == tid)
        {
            if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE)
            {
                M.depth++;
                return 0;
            }
            die("DEADLOCK: a thread locks a mutex it already holds");
        }
        T.w = MUTEX;
        T.obj = m;
    }
    schedule();
    T.w = RUNNABLE;
    Quiet q;
    acquireMutex(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_trylock);
    if (!ctl())
        return real_pthread_mutex_trylock(m);
    schedule();
    Quiet q;
    Mutex& M = (*mutexes)[m];
    if (M.owner >= 0)
        return EBUSY;
    acquireMutex(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_unlock);
    if (!ctl())
        return real_pthread_mutex_unlock(m);
    Quiet q;
    Mutex& M = (*mutexes)[m];
    if (M.owner != tid)
        die("a thread unlocks a mutex it does not hold");
    if (--M.depth > 0)
        return 0;
    releaseMutex(m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REAL(pthread_cond_wait);
    if (!ctl())
        return real_pthread_cond_wait(c, m);
    return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    REAL(pthread_cond_timedwait);
    if (!ctl())
        return real_pthread_cond_timedwait(c, m, t);
    return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    REAL(pthread_cond_clockwait);
    if (!ctl())
        return real_pthread_cond_clockwait(c, m, k, t);
    return condWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    REAL(pthread_cond_signal);
    if (!ctl())
        return real_pthread_cond_signal(c);
    return condSignal(c, false);
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    REAL(pthread_cond_broadcast);
    if (!ctl())
        return real_pthread_cond_broadcast(c);
    return condSignal(c, true);
}
int sched_yield()
{
    REAL(sched_yield);
    if (!ctl())
        return real_sched_yield();
    schedule(true);
    return 0;
}
static int sleepUntil(int64_t t)
{
    if (!opt.clockTick)
    {
        schedule(true);
        return 0;
    }
    Thread& T = *th[tid];
    T.w = SLEEP;
    T.wakeUp = t;
    schedule();
    T.w = RUNNABLE;
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    REAL(nanosleep);
    if (!ctl())
        return real_nanosleep(a, b);
    return sleepUntil(vnow + a->tv_sec * 1000000000ll + a->tv_nsec);
}
int clock_nanosleep(clockid_t k, int f, const struct timespec* a, struct timespec* b)
{
    REAL(clock_nanosleep);
    if (!ctl())
        return real_clock_nanosleep(k, f, a, b);
    int64_t t = a->tv_sec * 1000000000ll + a->tv_nsec;
    return sleepUntil(f & TIMER_ABSTIME ? t - EPOCH * 1000000000ll : vnow + t);
}
int clock_gettime(clockid_t k, struct timespec* t) noexcept
{
    if (!ctl() || !opt.clockTick)
        return (int)syscall(SYS_clock_gettime, k, t);
    schedule();
    vnow += opt.clockTick;
    t->tv_sec = EPOCH + vnow / 1000000000ll;
    t->tv_nsec = vnow % 1000000000ll;
    return 0;
}

// ---- memory
void* __wrap_malloc(size_t n)
{
    void* p = __real_malloc(n);
    onAlloc(p, n);
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    void* p = __real_calloc(a, b);
    onAlloc(p, a * b);
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    onFree(q, __builtin_return_address(0));
    void* p = __real_realloc(q, n);
    onAlloc(p, n);
    return p;
}
void __wrap_free(void* p)
{
    onFree(p, __builtin_return_address(0));
    __real_free(p);
}
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access((uintptr_t)s, n, false, __builtin_return_address(0));
    access((uintptr_t)d, n, true, __builtin_return_address(0));
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access((uintptr_t)s, n, false, __builtin_return_address(0));
    access((uintptr_t)d, n, true, __builtin_return_address(0));
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int v, size_t n)
{
    access((uintptr_t)d, n, true, __builtin_return_address(0));
    return __real_memset(d, v, n);
}
int __wrap___cxa_guard_acquire(void* g)
{
    int r = __real___cxa_guard_acquire(g);
    afterLoad(g, 5);
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    afterRmw(g, 5);
    __real___cxa_guard_release(g);
}

// ---- what the compiler's instrumentation calls
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                         \
    void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, PC); }              \
    void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, PC); }              \
    void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, PC); }    \
    void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, PC); }    \
    void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, PC); }     \
    void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v)
        access((uintptr_t)a, 8, true, PC);
}
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(BITS, T)                                                               \
    T __tsan_atomic##BITS##_load(const volatile T* a, int o)                          \
    {                                                                                 \
        atomicPoint((void*)a, sizeof(T));                                             \
        T r = __atomic_load_n(a, 5);                                                  \
        afterLoad((void*)a, o);                                                       \
        return r;                                                                     \
    }                                                                                 \
    void __tsan_atomic##BITS##_store(volatile T* a, T v, int o)                       \
    {                                                                                 \
        atomicPoint((void*)a, sizeof(T));                                             \
        __atomic_store_n(a, v, 5);                                                    \
        afterStore((void*)a, o);                                                      \
    }                                                                                 \
    T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int o)                       \
    {                                                                                 \
        atomicPoint((void*)a, sizeof(T));                                             \
        T r = __atomic_exchange_n(a, v, 5);                                           \
        afterRmw((void*)a, o);                                                        \
        return r;                                                                     \
    }                                                                                 \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* e, T v, int o, int f) \
    {                                                                                 \
        atomicPoint((void*)a, sizeof(T));                                             \
        bool r = __atomic_compare_exchange_n(a, e, v, false, 5, 5);                   \
        r ? afterRmw((void*)a, o) : afterLoad((void*)a, f);                           \
        return r;                                                                     \
    }                                                                                 \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* e, T v, int o, int f) \
    {                                                                                 \
        return __tsan_atomic##BITS##_compare_exchange_strong(a, e, v, o, f);          \
    }
#define RMW(BITS, T, OP)                                                              \
    T __tsan_atomic##BITS##_fetch_##OP(volatile T* a, T v, int o)                     \
    {                                                                                 \
        atomicPoint((void*)a, sizeof(T));                                             \
        T r = __atomic_fetch_##OP(a, v, 5);                                           \
        afterRmw((void*)a, o);                                                        \
        return r;                                                                     \
    }
#define ALL(BITS, T) ATOMIC(BITS, T) RMW(BITS, T, add) RMW(BITS, T, sub) RMW(BITS, T, and) RMW(BITS, T, or) RMW(BITS, T, xor) RMW(BITS, T, nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
}  // extern "C"

void* operator new(size_t n)
{
    void* p = __real_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    onAlloc(p, n);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept
{
    onFree(p, __builtin_return_address(0));
    __real_free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
