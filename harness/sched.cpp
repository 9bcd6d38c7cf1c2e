// Runtime of the controlled scheduler, see sched.hpp. Compiled without instrumentation.
#include "sched.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <cstdlib>
#include <sys/syscall.h>
#include <unistd.h>

namespace
{
using u8 = std::uint8_t;
using u32 = std::uint32_t;
using uptr = std::uintptr_t;
using sched::MAXT;

thread_local int t_id = -1; // controlled thread number
thread_local bool t_in = false; // inside the runtime
thread_local uptr t_stack_lo = 0, t_stack_hi = 0;
thread_local uptr t_tls_lo = 0, t_tls_hi = 0;

const sched::Plan *g_plan = nullptr;
sched::Result *g_res = nullptr;
int g_n = 0;
std::atomic<int> g_go[MAXT]; // futex words: 1 = may run
bool g_done[MAXT];
void *g_block[MAXT]; // what a thread waits for (address of a lock or guard), null = runnable
std::size_t g_next_switch = 0;
u32 g_point = 0;
u32 g_since = 0; // points passed by the running thread without a switch (spinning?)
bool g_dead = false;

// vector clocks
u32 g_vc[MAXT][MAXT];

// ---- tables in zero pages (every run is made in a fresh child) ------------------------------------------------------
struct Gran {
    uptr key;
    u8 r, w;             // bit per thread
    bool raced;
    u32 wc[MAXT], rc[MAXT]; // clock of the last write / read of each thread
    u8 wm[MAXT], rm[MAXT];  // bytes of the granule
};
constexpr std::size_t GT = std::size_t(1) << 17;
Gran g_tab[GT];
u32 g_used[GT], g_nused = 0;
struct Sync {
    uptr key;
    int owner; // -1 free
    int depth;
    u32 vc[MAXT];
    int state; // guards and once flags: 0 not done, 1 in progress, 2 done
};
constexpr std::size_t ST = 4096;
Sync g_sync[ST];

std::size_t hash(uptr k) { return (k * 0x9e3779b97f4a7c15ull) >> 40; }
std::size_t ghash(uptr k) { return (hash(k >> 5) << 5 | (k & 31)) & (GT - 1); } // neighbours share a page
Gran *gran(uptr key)
{
    std::size_t h = ghash(key);
    for (std::size_t n = 0; n < 512; ++n, h = (h + 1) & (GT - 1)) {
        if (g_tab[h].key == key) return &g_tab[h];
        if (g_tab[h].key == 0) {
            g_tab[h].key = key;
            g_used[g_nused++] = static_cast<u32>(h);
            return &g_tab[h];
        }
    }
    return nullptr; // table full: not tracked
}
Sync *sync(const void *a)
{
    uptr key = reinterpret_cast<uptr>(a);
    std::size_t h = hash(key) & (ST - 1);
    for (;; h = (h + 1) & (ST - 1)) {
        if (g_sync[h].key == key) return &g_sync[h];
        if (g_sync[h].key == 0) {
            g_sync[h].key = key;
            g_sync[h].owner = -1;
            return &g_sync[h];
        }
    }
}

void futex_wait(std::atomic<int> &f)
{
    while (f.load() == 0) syscall(SYS_futex, &f, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    f.store(0);
}
void futex_wake(std::atomic<int> &f)
{
    f.store(1);
    syscall(SYS_futex, &f, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
u8 runnable()
{
    u8 m = 0;
    for (int i = 0; i < g_n; ++i)
        if (!g_done[i] && !g_block[i]) m |= static_cast<u8>(1 << i);
    return m;
}
int pick()
{
    u8 m = runnable();
    for (int k = 0; k < g_n; ++k)
        if (m & (1 << g_plan->order[k])) return g_plan->order[k];
    return -1;
}
std::atomic<int> g_end;
void give(int to, bool wait)
{
    int me = t_id;
    g_since = 0;
    futex_wake(g_go[to]);
    if (wait) futex_wait(g_go[me]);
}
void yield_to_other() // the running thread cannot go on
{
    int to = pick();
    if (to < 0) {
        g_res->deadlock = 1;
        g_dead = true;
        g_end = 1;
        syscall(SYS_futex, &g_end, FUTEX_WAKE, 1, nullptr, nullptr, 0);
        for (;;) pause();
    }
    if (to != t_id) give(to, true);
}
void point()
{
    u32 p = g_point++;
    g_res->points = g_point;
    if (p < sched::MAXP) {
        g_res->who[p] = static_cast<u8>(t_id);
        g_res->runnable[p] = runnable();
    }
    const auto &s = g_plan->switches;
    if (g_next_switch < s.size() && s[g_next_switch].at == p) {
        int to = s[g_next_switch++].to;
        if (to != t_id && to < g_n && !g_done[to] && !g_block[to]) {
            give(to, true);
            return;
        }
    }
    if (++g_since > 20000 && g_next_switch >= s.size()) { // waits actively for another thread
        g_res->spins++;
        for (int i = 0; i < g_n; ++i)
            if (i != t_id && !g_done[i] && !g_block[i]) {
                give(i, true);
                return;
            }
    }
}
constexpr std::size_t FB = 1 << 15; // filter in front of the search
u8 g_filter[FB / 8];
void make_filter()
{
    for (auto &x : g_filter) x = 0;
    for (auto g : g_plan->conflicts) g_filter[(g % FB) / 8] |= static_cast<u8>(1 << (g % 8));
}
bool is_conflict(uptr g)
{
    if (!(g_filter[(g % FB) / 8] & (1 << (g % 8)))) return false;
    return std::binary_search(g_plan->conflicts.begin(), g_plan->conflicts.end(), g);
}
void record(uptr g, bool w, u8 mask)
{
    auto *e = gran(g);
    if (!e) return;
    const int me = t_id;
    (w ? e->w : e->r) |= static_cast<u8>(1 << me);
    const u8 mine = static_cast<u8>(1 << me);
    if (((e->w | e->r) & ~mine) == 0 && !e->raced) { // nobody else was here
        auto &c0 = w ? e->wc[me] : e->rc[me];
        auto &m0 = w ? e->wm[me] : e->rm[me];
        m0 = c0 == g_vc[me][me] ? static_cast<u8>(m0 | mask) : mask;
        c0 = g_vc[me][me];
        return;
    }
    if (!e->raced)
        for (int o = 0; o < g_n; ++o) {
            if (o == me) continue;
            bool bad = e->wc[o] > g_vc[me][o] && (e->wm[o] & mask);
            bool badr = w && e->rc[o] > g_vc[me][o] && (e->rm[o] & mask);
            if (bad || badr) {
                e->raced = true;
                if (g_res->nrace < sched::MAXR) g_res->race[g_res->nrace++] = {g * 8, o, me, bad, w};
            }
        }
    auto &c = w ? e->wc[me] : e->rc[me];
    auto &m = w ? e->wm[me] : e->rm[me];
    if (c != g_vc[me][me]) m = 0;
    m |= mask;
    c = g_vc[me][me];
}
void access(const void *p, std::size_t n, bool w, bool atomic = false)
{
    if (t_id < 0 || t_in || n == 0) return;
    uptr a = reinterpret_cast<uptr>(p);
    if (a >= t_stack_lo && a < t_stack_hi) return;
    if (a >= t_tls_lo && a < t_tls_hi) return;
    t_in = true;
    g_res->accesses++;
    uptr g0 = a / 8, g1 = (a + n - 1) / 8;
    bool stop = false;
    if (!g_plan->at_functions)
        for (uptr g = g0; g <= g1 && !stop; ++g) stop = is_conflict(g);
    if (stop) point();
    for (uptr g = g0; g <= g1; ++g) {
        uptr lo = std::max(a, g * 8), hi = std::min(a + n, g * 8 + 8);
        u8 mask = static_cast<u8>(((1u << (hi - lo)) - 1u) << (lo - g * 8));
        if (!atomic) record(g, w, mask);
        else if (auto *e = gran(g)) (w ? e->w : e->r) |= static_cast<u8>(1 << t_id);
    }
    t_in = false;
}
void acquire_from(Sync *s)
{
    for (int i = 0; i < g_n; ++i) g_vc[t_id][i] = std::max(g_vc[t_id][i], s->vc[i]);
}
void release_to(Sync *s)
{
    for (int i = 0; i < g_n; ++i) s->vc[i] = std::max(s->vc[i], g_vc[t_id][i]);
    g_vc[t_id][t_id]++;
}
void unblock(const void *a)
{
    for (int i = 0; i < g_n; ++i)
        if (g_block[i] == a) g_block[i] = nullptr;
}
void atomic_sync(const void *p)
{
    if (t_id < 0 || t_in) return;
    t_in = true;
    auto *s = sync(p);
    acquire_from(s);
    release_to(s);
    t_in = false;
}
struct In {
    bool on;
    In() : on(t_id >= 0 && !t_in)
    {
        if (on) t_in = true;
    }
    ~In()
    {
        if (on) t_in = false;
    }
};
// a lock, guard or once flag is used: it is common memory that is written
void sync_point(const void *m)
{
    const uptr g = reinterpret_cast<uptr>(m) / 8;
    if (!g_plan->at_functions && is_conflict(g)) point();
    if (auto *e = gran(g)) e->w |= static_cast<u8>(1 << t_id);
}
void lock_model(const void *m, bool recursive)
{
    sync_point(m);
    auto *s = sync(m);
    while (s->owner != -1 && !(recursive && s->owner == t_id)) {
        g_block[t_id] = const_cast<void *>(m);
        yield_to_other();
    }
    s->owner = t_id;
    s->depth++;
    acquire_from(s);
}
void unlock_model(const void *m)
{
    auto *s = sync(m);
    release_to(s);
    if (--s->depth <= 0) {
        s->depth = 0;
        s->owner = -1;
        unblock(m);
    }
    sync_point(m);
}
template <typename F>
F real(const char *n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
} // namespace

// ---- memory given back: accesses by later owners do not race with those of earlier ones -------------------------------
namespace
{
void forget(void *p)
{
    if (t_id < 0 || t_in || !p) return;
    t_in = true;
    const uptr a = reinterpret_cast<uptr>(p), b = a + malloc_usable_size(p);
    for (uptr g = a / 8; g < (b + 7) / 8; ++g) {
        std::size_t h = ghash(g);
        for (std::size_t n = 0; n < 512 && g_tab[h].key; ++n, h = (h + 1) & (GT - 1))
            if (g_tab[h].key == g) {
                for (int i = 0; i < MAXT; ++i) {
                    g_tab[h].wc[i] = g_tab[h].rc[i] = 0;
                    g_tab[h].wm[i] = g_tab[h].rm[i] = 0;
                }
                break;
            }
    }
    t_in = false;
}
void release_memory(void *p)
{
    forget(p);
    std::free(p);
}
} // namespace
void operator delete(void *p) noexcept { release_memory(p); }
void operator delete[](void *p) noexcept { release_memory(p); }
void operator delete(void *p, std::size_t) noexcept { release_memory(p); }
void operator delete[](void *p, std::size_t) noexcept { release_memory(p); }
void operator delete(void *p, std::align_val_t) noexcept { release_memory(p); }
void operator delete[](void *p, std::align_val_t) noexcept { release_memory(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { release_memory(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { release_memory(p); }

static thread_local int t_quiet = 0;
extern "C" void heyoka_shim_quiet(int on)
{
    if (t_id < 0) return;
    t_quiet += on ? 1 : -1;
    t_in = t_quiet > 0;
}

// ---- interposed library functions -----------------------------------------------------------------------------------
extern "C" {
void *memcpy(void *d, const void *s, std::size_t n)
{
    if (t_id >= 0 && !t_in) {
        access(s, n, false);
        access(d, n, true);
    }
    void *r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    return r;
}
void *memmove(void *d, const void *s, std::size_t n)
{
    if (t_id >= 0 && !t_in) {
        access(s, n, false);
        access(d, n, true);
    }
    void *r = d;
    if (static_cast<char *>(d) <= static_cast<const char *>(s) || static_cast<char *>(d) >= static_cast<const char *>(s) + n) {
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    } else {
        char *dd = static_cast<char *>(d) + n - 1;
        const char *ss = static_cast<const char *>(s) + n - 1;
        asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory");
    }
    return r;
}
void *memset(void *d, int v, std::size_t n)
{
    if (t_id >= 0 && !t_in) access(d, n, true);
    void *r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (t_id >= 0 && !t_in) {
        In in;
        lock_model(m, true);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (t_id >= 0 && !t_in) {
        In in;
        sync_point(m);
        auto *s = sync(m);
        if (s->owner != -1 && s->owner != t_id) return EBUSY;
        s->owner = t_id;
        s->depth++;
        acquire_from(s);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
    return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (t_id >= 0 && !t_in) {
        In in;
        unlock_model(m);
        return 0;
    }
    static auto f = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    return f(m);
}
// readers exclude each other as well in the model: a subset of the real schedules, but sound for the results
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
    if (t_id >= 0 && !t_in) {
        In in;
        lock_model(m, true);
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
    return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
    if (t_id >= 0 && !t_in) {
        In in;
        lock_model(m, false);
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
    return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m)
{
    if (t_id >= 0 && !t_in) {
        In in;
        unlock_model(m);
        return 0;
    }
    static auto f = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock");
    return f(m);
}
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    if (t_id >= 0 && !t_in) {
        {
            In in;
            if (*reinterpret_cast<volatile int *>(o) == 2) return 0; // done before the threads started
            sync_point(o);
            auto *s = sync(o);
            while (s->state == 1) {
                g_block[t_id] = o;
                yield_to_other();
            }
            if (s->state == 2) {
                acquire_from(s);
                return 0;
            }
            s->state = 1;
        }
        try {
            fn();
        } catch (...) {
            In in;
            sync(o)->state = 0;
            unblock(o);
            throw;
        }
        In in;
        auto *s = sync(o);
        s->state = 2;
        release_to(s);
        unblock(o);
        return 0;
    }
    static auto f = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once");
    return f(o, fn);
}
int __cxa_guard_acquire(std::uint64_t *g)
{
    if (t_id >= 0 && !t_in) {
        In in;
        sync_point(g);
        auto *s = sync(g);
        while (s->state == 1) {
            g_block[t_id] = g;
            yield_to_other();
        }
        acquire_from(s);
        if (*reinterpret_cast<volatile char *>(g)) return 0;
        s->state = 1;
        return 1;
    }
    static auto f = real<int (*)(std::uint64_t *)>("__cxa_guard_acquire");
    return f(g);
}
void __cxa_guard_release(std::uint64_t *g)
{
    if (t_id >= 0 && !t_in) {
        In in;
        *reinterpret_cast<volatile char *>(g) = 1;
        auto *s = sync(g);
        s->state = 2;
        release_to(s);
        unblock(g);
        sync_point(g);
        return;
    }
    static auto f = real<void (*)(std::uint64_t *)>("__cxa_guard_release");
    f(g);
}
void __cxa_guard_abort(std::uint64_t *g)
{
    if (t_id >= 0 && !t_in) {
        In in;
        auto *s = sync(g);
        s->state = 0;
        release_to(s);
        unblock(g);
        return;
    }
    static auto f = real<void (*)(std::uint64_t *)>("__cxa_guard_abort");
    f(g);
}
// functions with a result in static storage
struct tm *gmtime(const time_t *t)
{
    static auto f = real<struct tm *(*)(const time_t *)>("gmtime");
    auto *r = f(t);
    access(r, sizeof *r, true);
    return r;
}
struct tm *localtime(const time_t *t)
{
    static auto f = real<struct tm *(*)(const time_t *)>("localtime");
    auto *r = f(t);
    access(r, sizeof *r, true);
    return r;
}
char *asctime(const struct tm *t)
{
    static auto f = real<char *(*)(const struct tm *)>("asctime");
    auto *r = f(t);
    access(r, 26, true);
    return r;
}
char *ctime(const time_t *t)
{
    static auto f = real<char *(*)(const time_t *)>("ctime");
    auto *r = f(t);
    access(r, 26, true);
    return r;
}
static long g_rand_state, g_strtok_state;
int rand(void)
{
    static auto f = real<int (*)(void)>("rand");
    access(&g_rand_state, 8, true);
    return f();
}
char *strtok(char *s, const char *d)
{
    static auto f = real<char *(*)(char *, const char *)>("strtok");
    access(&g_strtok_state, 8, true);
    return f(s, d);
}

// ---- the instrumentation interface ----------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *)
{
    if (t_id >= 0 && !t_in && g_plan->at_functions) {
        t_in = true;
        point();
        t_in = false;
    }
}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *p) { access(p, n, false); }                                                              \
    void __tsan_write##n(void *p) { access(p, n, true); }                                                              \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); }                                                    \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true); }                                                    \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); }                                                     \
    void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1)
RW(2) RW(4) RW(8) RW(16) void __tsan_read_range(void *p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, std::size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define AT(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T *a, int)                                                             \
    {                                                                                                                  \
        access(const_cast<T *>(a), sizeof(T), false, true);                                                            \
        atomic_sync(const_cast<T *>(a));                                                                               \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                   \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int)                                                          \
    {                                                                                                                  \
        access(const_cast<T *>(a), sizeof(T), true, true);                                                             \
        atomic_sync(const_cast<T *>(a));                                                                               \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int)                                                          \
    {                                                                                                                  \
        access(const_cast<T *>(a), sizeof(T), true, true);                                                             \
        atomic_sync(const_cast<T *>(a));                                                                               \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)                              \
    {                                                                                                                  \
        access(const_cast<T *>(a), sizeof(T), true, true);                                                             \
        atomic_sync(const_cast<T *>(a));                                                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int)                                \
    {                                                                                                                  \
        access(const_cast<T *>(a), sizeof(T), true, true);                                                             \
        atomic_sync(const_cast<T *>(a));                                                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }
#define AO(bits, T, op)                                                                                                \
    T __tsan_atomic##bits##_fetch_##op(volatile T *a, T v, int)                                                        \
    {                                                                                                                  \
        access(const_cast<T *>(a), sizeof(T), true, true);                                                             \
        atomic_sync(const_cast<T *>(a));                                                                               \
        atomic_sync(const_cast<T *>(a));                                                                               \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                                            \
    }
#define AA(bits, T) AT(bits, T) AO(bits, T, add) AO(bits, T, sub) AO(bits, T, and) AO(bits, T, or) AO(bits, T, xor) AO(bits, T, nand)
AA(8, unsigned char)
AA(16, unsigned short)
AA(32, unsigned int)
AA(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}

namespace sched
{
namespace
{
struct Start {
    int id;
    const std::function<void()> *body;
};
std::atomic<int> g_ready;
void *thread_main(void *p)
{
    auto *s = static_cast<Start *>(p);
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void *lo;
    std::size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    t_stack_lo = reinterpret_cast<uptr>(lo);
    t_stack_hi = t_stack_lo + sz; // the static thread-local block lies inside
    { // every thread gets its own heap arena now, so that heap addresses of different threads differ
        void *q = malloc(100);
        asm volatile("" ::"r"(q) : "memory");
        free(q);
    }
    g_ready++;
    futex_wait(g_go[s->id]);
    t_in = false;
    t_id = s->id;
    (*s->body)();
    t_in = true;
    g_done[s->id] = true;
    int to = pick();
    int id = t_id;
    t_id = -1;
    (void)id;
    if (to >= 0) {
        g_since = 0;
        futex_wake(g_go[to]);
    } else {
        bool all = true;
        for (int i = 0; i < g_n; ++i) all = all && g_done[i];
        if (!all) g_res->deadlock = 1;
        g_end = 1;
        syscall(SYS_futex, &g_end, FUTEX_WAKE, 1, nullptr, nullptr, 0);
    }
    return nullptr;
}
} // namespace

void run(const std::vector<std::function<void()>> &bodies, const Plan &p, Result &r)
{
    g_plan = &p;
    g_res = &r;
    r.points = r.nconf = r.nrace = r.deadlock = r.finished = r.spins = 0;
    r.accesses = 0;
    g_n = static_cast<int>(bodies.size());
    make_filter();
    pthread_t th[MAXT];
    Start st[MAXT];
    for (int i = 0; i < g_n; ++i) {
        g_go[i] = 0;
        g_done[i] = false;
        g_block[i] = nullptr;
        for (int j = 0; j < MAXT; ++j) g_vc[i][j] = i == j ? 1 : 0;
    }
    g_ready = 0;
    g_end = 0;
    for (int i = 0; i < g_n; ++i) {
        st[i] = {i, &bodies[static_cast<std::size_t>(i)]};
        pthread_create(&th[i], nullptr, thread_main, &st[i]);
    }
    while (g_ready.load() < g_n) sched_yield();
    futex_wake(g_go[pick()]);
    while (g_end.load() == 0) syscall(SYS_futex, &g_end, FUTEX_WAIT, 0, nullptr, nullptr, 0);
    if (r.deadlock) return; // threads are left where they are; the process ends
    for (int i = 0; i < g_n; ++i) pthread_join(th[i], nullptr);
    r.finished = 1;
    for (u32 k = 0; k < g_nused; ++k) {
        const auto &e = g_tab[g_used[k]];
        if (!e.w) continue;
        u8 all = static_cast<u8>(e.w | e.r);
        if ((all & (all - 1)) == 0) continue; // one thread only
        if (r.nconf < MAXC) r.conf[r.nconf++] = e.key;
    }
}
} // namespace sched
