/* Adversarial scheduling of the threads of the binary under test. Its sources are compiled with -fsanitize=thread and linked with this
 * file in the place of the sanitizer's runtime, so every access to memory is a point where a thread can be held back:
 *   - before an atomic operation a thread waits for others to arrive,
 *   - having read zero (a free place of a table, say) or any other word, it waits for another thread to read the same word, so that a
 *     test that is not atomic with the write that follows it is passed by both,
 *   - at any other access it may be delayed.
 * Each place in the code is held often at first and then less and less, so that rare ones count as much as inner loops.
 * VT_JITTER=<seed> turns this on, VT_JITTER_LOG=<file> gets the numbers of compare-and-swap operations and of those that failed. */
#include <omp.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>

static atomic_int waiting, sequence;
static atomic_long tries, fails;
static _Atomic(void *) meeting;
static int on;
static _Thread_local uint64_t x;
static _Thread_local unsigned count[4096];

static void report(void)
{
    const char *s = getenv("VT_JITTER_LOG");
    FILE *f = s ? fopen(s, "a") : NULL;
    if (f) {
        fprintf(f, "%ld %ld\n", (long)tries, (long)fails);
        fclose(f);
    }
}

static int active(void)
{
    return on && omp_in_parallel();
}

static unsigned rnd(void)
{
    if (!x)
        x = 88172645463325252ULL + 1000003ULL * on + 7919ULL * ++sequence;
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (unsigned)(x >> 20);
}

static long now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000L + t.tv_nsec;
}

static void arrive(void)
{
    const long end = now() + 20000 + rnd() % 100000;
    const int others = 2 + rnd() % 2;
    waiting++;
    if (rnd() % 4)
        while (now() < end && waiting < others)
            sched_yield();
}

static void leave(void)
{
    const long end = now() + rnd() % 30000;
    if (rnd() % 2)
        while (now() < end)
            sched_yield();
    waiting--;
}

static void meet(void *p)
{
    const long end = now() + 5000 + rnd() % 50000;
    void *q = atomic_exchange(&meeting, p);
    if (q != p)
        while (now() < end && meeting == p)
            sched_yield();
    else
        meeting = NULL;
}

static inline int often(void *site, int k)
{
    unsigned n = ++count[((uintptr_t)site >> 1) & 4095];
    return n < 16u >> k || rnd() % ((n << k) / 16 + 1) == 0;
}

#define SITE __builtin_return_address(0)
#define PLAIN(N, T) \
    void __tsan_read##N(void *p) { if (on && often(SITE, *(T *)p ? 3 : 1) && active()) meet(p); } \
    void __tsan_write##N(void *p) { if (on && often(SITE, 2) && active()) meet(p); } \
    void __tsan_unaligned_read##N(void *p) {} \
    void __tsan_unaligned_write##N(void *p) {} \
    void __tsan_volatile_read##N(void *p) {} \
    void __tsan_volatile_write##N(void *p) {} \
    void __tsan_unaligned_volatile_read##N(void *p) {} \
    void __tsan_unaligned_volatile_write##N(void *p) {}
PLAIN(1, uint8_t)
PLAIN(2, uint16_t)
PLAIN(4, uint32_t)
PLAIN(8, uint64_t)
PLAIN(16, unsigned __int128)

#define HELD(T, e) { T r; const int a = active(); if (a) arrive(); r = (e); if (a) leave(); return r; }
#define CAS(T, e) { T r; const int a = active(); if (a) arrive(); r = (e); if (a) { tries++; fails += !r; leave(); } return r; }
#define ATOMIC(N, T) \
    T __tsan_atomic##N##_load(T *p, int m) { return __atomic_load_n(p, 5); } \
    void __tsan_atomic##N##_store(T *p, T v, int m) { if (active()) { arrive(); leave(); } __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##N##_exchange(T *p, T v, int m) HELD(T, __atomic_exchange_n(p, v, 5)) \
    T __tsan_atomic##N##_fetch_add(T *p, T v, int m) HELD(T, __atomic_fetch_add(p, v, 5)) \
    T __tsan_atomic##N##_fetch_sub(T *p, T v, int m) HELD(T, __atomic_fetch_sub(p, v, 5)) \
    T __tsan_atomic##N##_fetch_and(T *p, T v, int m) HELD(T, __atomic_fetch_and(p, v, 5)) \
    T __tsan_atomic##N##_fetch_or(T *p, T v, int m) HELD(T, __atomic_fetch_or(p, v, 5)) \
    T __tsan_atomic##N##_fetch_xor(T *p, T v, int m) HELD(T, __atomic_fetch_xor(p, v, 5)) \
    T __tsan_atomic##N##_fetch_nand(T *p, T v, int m) HELD(T, __atomic_fetch_nand(p, v, 5)) \
    int __tsan_atomic##N##_compare_exchange_strong(T *p, T *o, T n, int m, int f) CAS(int, __atomic_compare_exchange_n(p, o, n, 0, 5, 5)) \
    int __tsan_atomic##N##_compare_exchange_weak(T *p, T *o, T n, int m, int f) CAS(int, __atomic_compare_exchange_n(p, o, n, 0, 5, 5)) \
    T __tsan_atomic##N##_compare_exchange_val(T *p, T o, T n, int m, int f) \
    { const int a = active(); int r; if (a) arrive(); r = __atomic_compare_exchange_n(p, &o, n, 0, 5, 5); if (a) { tries++; fails += !r; leave(); } return o; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)

void __tsan_atomic_thread_fence(int m) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int m) {}
void __tsan_read_range(void *p, size_t n) {}
void __tsan_write_range(void *p, size_t n) {}
void __tsan_vptr_read(void *p) {}
void __tsan_vptr_update(void *p, void *v) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}

void __tsan_init(void)
{
    const char *s = getenv("VT_JITTER");
    if (s && !on) {
        on = atoi(s);
        atexit(report);
    }
}
