// M01: mutexes (lib/mutex_std.cpp) under every interleaving. The system's lock primitives are modelled below: each acts
// in one instant, blocks while the lock is not free for it, and hands the previous holder's writes to the next.
#include "vs.h"
#include <string.h>
#include <errno.h>
#ifdef WIN_LOCKS // W01: the same for lib/mutex_win32.cpp
#include <windows.h>
#define _WIN32 1
#include "mutex_win32.cpp"
#undef _WIN32
static_assert(CE_MUTEX_WIN32);
#else
#include "mutex_std.cpp"
#include <pthread.h>
#endif
using namespace ce;

// one word per lock: exclusive bit 31, number of shared holders below; two words so that a waiter can name what blocks it
struct model { uint32_t excl, shared; };
static bool never_block, blocked; static uint32_t calls;
static bool enter(model* m, bool sh, bool wait)
{
    vs_yield(); ++calls;
    while (true)
    {
        vs_no_yield(true); bool free = !__atomic_load_n(&m->excl, __ATOMIC_SEQ_CST) && (sh || !__atomic_load_n(&m->shared, __ATOMIC_SEQ_CST));
        if (free) { if (sh) __atomic_fetch_add(&m->shared, 1, __ATOMIC_SEQ_CST); else __atomic_exchange_n(&m->excl, 1, __ATOMIC_SEQ_CST); }
        vs_no_yield(false); if (free || !wait) return free;
        if (never_block) vs_fail("a try form blocks");
        blocked = true; vs_wait(m->excl ? &m->excl : &m->shared);
    }
}
static int leave(model* m, bool ex = true, bool sh = true)
{
    vs_yield(); ++calls; vs_no_yield(true); int r = 0;
    if (m->excl ? !ex : !sh) vs_fail("a lock is released as it is not held");
    if (m->excl) __atomic_exchange_n(&m->excl, 0, __ATOMIC_SEQ_CST); else if (m->shared) __atomic_fetch_sub(&m->shared, 1, __ATOMIC_SEQ_CST); else vs_fail("a lock that is not held is released");
    vs_no_yield(false); return r;
}
#ifdef WIN_LOCKS
static_assert(sizeof(model) <= sizeof(SRWLOCK) && sizeof(SRWLOCK) <= sizeof(thread_mutex) && sizeof(SRWLOCK) <= sizeof(thread_shared_mutex));
extern "C" {
void InitializeSRWLock(SRWLOCK* p) { memset((void*)p, 0, sizeof *p); }
BOOLEAN TryAcquireSRWLockExclusive(SRWLOCK* p) { return enter((model*)p, false, false); }
void AcquireSRWLockExclusive(SRWLOCK* p) { enter((model*)p, false, true); }
void ReleaseSRWLockExclusive(SRWLOCK* p) { leave((model*)p, true, false); }
BOOLEAN TryAcquireSRWLockShared(SRWLOCK* p) { return enter((model*)p, true, false); }
void AcquireSRWLockShared(SRWLOCK* p) { enter((model*)p, true, true); }
void ReleaseSRWLockShared(SRWLOCK* p) { leave((model*)p, false, true); }
}
#else
static_assert(sizeof(model) <= sizeof(pthread_mutex_t) && sizeof(model) <= sizeof(pthread_rwlock_t));
extern "C" {
int pthread_mutex_init(pthread_mutex_t* p, const pthread_mutexattr_t*) noexcept { memset((void*)p, 0, sizeof *p); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t* p) noexcept { enter((model*)p, false, true); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* p) noexcept { return enter((model*)p, false, false) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* p) noexcept { return leave((model*)p); }
int pthread_rwlock_init(pthread_rwlock_t* p, const pthread_rwlockattr_t*) noexcept { memset((void*)p, 0, sizeof *p); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* p) noexcept { enter((model*)p, true, true); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) noexcept { enter((model*)p, false, true); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) noexcept { return enter((model*)p, true, false) ? 0 : EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) noexcept { return enter((model*)p, false, false) ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* p) noexcept { return leave((model*)p); }
}
#endif
namespace std { void __throw_system_error(int) { vs_fail("a lock operation throws"); } }

template<class M> struct share { static constexpr bool can = false; };
template<> struct share<thread_shared_mutex> { static constexpr bool can = true; };

// kinds of use: acquire, try, acquire shared, try shared
enum { ACQ, TRY, ACQS, TRYS };
template<class M> struct world { static M* m; static uint32_t k[4], n[4]; static bool got[4]; static uint32_t writers, readers, data, last, together; };
template<class M> M* world<M>::m; template<class M> uint32_t world<M>::k[4]; template<class M> uint32_t world<M>::n[4]; template<class M> bool world<M>::got[4];
template<class M> uint32_t world<M>::writers; template<class M> uint32_t world<M>::readers; template<class M> uint32_t world<M>::data; template<class M> uint32_t world<M>::last; template<class M> uint32_t world<M>::together;
static uint32_t peek(uint32_t* p) { return __atomic_load_n(p, __ATOMIC_RELAXED); }
static void poke(uint32_t* p, uint32_t v) { __atomic_store_n(p, v, __ATOMIC_RELAXED); }

template<class M> static bool acquire(M& m, uint32_t k)
{
    if (k == ACQ) { acquire_mutex(m); return true; }
    if (k == TRY) { return try_acquire_mutex(m); }
    if constexpr (share<M>::can) { if (k == ACQS) { acquire_mutex_shared(m); return true; } return try_acquire_mutex_shared(m); }
    return false;
}
template<class M> static void release(M& m, uint32_t k) { if constexpr (share<M>::can) if (k >= ACQS) { release_mutex_shared(m); return; } release_mutex(m); }

template<class M> static void user(void* t)
{
    using W = world<M>; uint32_t i = (uint32_t)(uintptr_t)t, k = W::k[i]; bool sh = k >= ACQS;
    for (uint32_t r = 0; r < W::n[i]; ++r)
    {
        bool g = acquire(*W::m, k); W::got[i] = g; if (!g) continue;
        vs_check(W::writers == 0, "nobody else holds the lock exclusively");
        if (!sh) { vs_check(W::readers == 0, "an exclusive holder is alone"); ++W::writers; uint32_t d = peek(&W::data); vs_check(d == W::last, "an exclusive holder sees what earlier ones wrote"); poke(&W::data, d + 1); ++W::last; --W::writers; }
        else { ++W::readers; if (W::readers > W::together) W::together = W::readers; vs_check(peek(&W::data) == W::last, "a shared holder sees what exclusive ones wrote"); vs_yield(); vs_check(W::writers == 0, "no exclusive holder next to a shared one"); --W::readers; }
        release(*W::m, k);
    }
}
template<class M, uint32_t K> static void mix(uint32_t a, uint32_t b, uint32_t c, uint32_t ra, uint32_t rb)
{
    using W = world<M>; M m; for (uint32_t i = 0; i < sizeof m / 8; ++i) { uint64_t x = vs_sym(64, "memory"); memcpy((char*)&m + 8 * i, &x, 8); }
    construct_mutex(m); W::m = &m; W::k[0] = a; W::k[1] = b; W::k[2] = c; W::n[0] = ra; W::n[1] = rb; W::n[2] = 1; W::writers = W::readers = W::data = W::last = W::together = 0; vs_at_reg(&W::data, 4);
    vs_spawn(user<M>, (void*)0); vs_spawn(user<M>, (void*)1); if (K > 2) vs_spawn(user<M>, (void*)2);
    vs_join_all(); vs_at_joined();
    for (uint32_t i = 0; i < K; ++i) vs_check(W::k[i] == TRY || W::k[i] == TRYS || W::got[i], "a blocking acquire gets the lock");
    never_block = true; vs_check(try_acquire_mutex(m), "the lock is free in the end"); release_mutex(m); destroy_mutex(m);
    vs_observe(W::last); vs_observe(W::together); if (W::together > 1) vs_cover("two readers together"); if (blocked) vs_cover("somebody waits"); vs_cover("completes");
}
static uint32_t pick(uint32_t n) { return (uint32_t)vs_concretize(vs_range(0, n - 1, "kind")); }
VS_ENTRY(m_two) { mix<thread_mutex, 2>(ACQ, pick(2), 0, 2, 2); }
VS_ENTRY(m_three) { mix<thread_mutex, 3>(ACQ, ACQ, pick(2), 1, 1); }
VS_ENTRY(m_shared_two) { uint32_t a = pick(4); mix<thread_shared_mutex, 2>(a, ACQS, 0, 2, 1); }
VS_ENTRY(m_shared_writer) { uint32_t a = pick(4); mix<thread_shared_mutex, 2>(a, ACQ, 0, 1, 2); }
VS_ENTRY(m_shared_three) { mix<thread_shared_mutex, 3>(2 + pick(2), ACQS, ACQ, 1, 1); }
VS_ENTRY(m_shared_three_w) { mix<thread_shared_mutex, 3>(pick(2), ACQS, ACQ, 1, 1); }
VS_ENTRY(m_shared_all) { vs_preempt_bound(4); uint32_t a = pick(4), b = pick(4); mix<thread_shared_mutex, 3>(a, b, pick(4), 1, 1); }

// try forms from every state of the lock, by another thread, and what becomes of a waiter
template<class M> static void state(uint32_t held, uint32_t want)
{
    using W = world<M>; M m; for (uint32_t i = 0; i < sizeof m / 8; ++i) { uint64_t x = vs_sym(64, "memory"); memcpy((char*)&m + 8 * i, &x, 8); } construct_mutex(m); W::m = &m;
    // held: nothing, exclusively, by one reader, by two readers
    never_block = true;
    if (held == 1) vs_check(try_acquire_mutex(m), "a free lock is acquired");
    if constexpr (share<M>::can) if (held >= 2) { vs_check(try_acquire_mutex_shared(m), "a free lock is acquired shared"); if (held == 3) acquire_mutex_shared(m); }
    bool free = want == TRY ? held == 0 : held != 1;
    vs_check(acquire(m, want) == free, "a try form succeeds exactly when the lock is free for it");
    if (free) release(m, want);
    if (held == 1) release_mutex(m);
    if constexpr (share<M>::can) if (held >= 2) { release_mutex_shared(m); if (held == 3) { vs_check(!try_acquire_mutex(m), "one reader left keeps writers out"); release_mutex_shared(m); } }
    acquire_mutex(m); vs_check(!try_acquire_mutex(m), "a held lock is not acquired again"); release_mutex(m); destroy_mutex(m); construct_mutex(m); vs_check(try_acquire_mutex(m), "a rebuilt lock is free"); vs_cover("completes");
}
VS_ENTRY(m_state) { state<thread_mutex>(pick(2), TRY); }
VS_ENTRY(m_state_shared) { uint32_t h = pick(4); state<thread_shared_mutex>(h, pick(2) ? TRY : TRYS); }
