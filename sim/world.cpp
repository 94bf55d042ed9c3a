#include "world.h"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <stdexcept>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace sim {

Shared* shm = nullptr;
const char* const kCtrNames[] = {
#define X(n) #n,
    SIM_COUNTERS(X)
#undef X
};
EventLog* elog = nullptr;
TapeMirror* tape_mirror = nullptr;
thread_local Tls tls;
unsigned char g_fill = 0xA5;
std::atomic<int64_t> g_live_blocks{0};
std::atomic<int64_t> g_live_bytes{0};
std::atomic<int64_t> g_maps{0};
std::atomic<int64_t> g_raw_blocks{0};
uint64_t g_steps = 0, g_step_limit = ~0ull;
FsPlan fs;

void fail(const std::string& cls, const std::string& msg)
{
    throw Violation{cls, msg};
}

void EventLog::add(const std::string& s)
{
    hash = fnv(s, hash * 31 + 7);
    n++;
    if (mirror_hash) *mirror_hash = hash;
    if (text && text_len + s.size() + 2 < text_cap) {
        memcpy(text + text_len, s.data(), s.size());
        text_len += s.size();
        text[text_len++] = '\n';
        text[text_len] = 0;
    }
}

void logf(const char* fmt, ...)
{
    if (!elog) return;
    Outside o;
    char buf[600];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    elog->add(buf);
}

// ================================================================ scheduler
namespace {
constexpr int kMaxThreads = 8;
void race_begin();
struct Sched
{
    bool on = false;
    int n = 0, alive = 0, cur = -1;
    bool done[kMaxThreads];
    sem_t sem[kMaxThreads];
    sem_t main_sem;
    Tape* tape = nullptr;
    int mode = 0; // 0: step preemption + io, 1: io only, 2: few priority change points, 3: alloc + io
    uint64_t mean = 1000;
    int budget = 0;
    int io_pct = 0, alloc_pct = 0, mem_pct = 0;
    uint64_t trace = 0;
    uint64_t slices = 0; // used up by the current thread since it was switched to
} S;

void sem_wait_nointr(sem_t* s)
{
    while (sem_wait(s) == -1 && errno == EINTR) {
    }
}

void set_slice(int64_t n)
{
    tls.slice = n;
    tls.fuel = n;
}

void next_slice()
{
    if (S.on && tls.tid >= 0 && S.budget > 0 && (S.mode == 0 || S.mode == 2)) {
        Outside o;
        uint64_t d = 1 + S.tape->draw(2 * S.mean);
        set_slice(static_cast<int64_t>(d));
    } else {
        set_slice(1 << 16);
    }
}

void switch_to(int target)
{
    int me = tls.tid;
    if (target == me) return;
    S.cur = target;
    S.slices = 0;
    sem_post(&S.sem[target]);
    sem_wait_nointr(&S.sem[me]);
}

int pick_next(int me)
{
    for (int i = 1; i < S.n; i++)
        if (!S.done[(me + i) % S.n]) return (me + i) % S.n;
    return me;
}

int pick_other(int me)
{
    int cand[kMaxThreads], k = 0;
    for (int i = 0; i < S.n; i++)
        if (!S.done[i] && i != me) cand[k++] = i;
    if (k == 0) return me;
    return cand[S.tape->draw(static_cast<uint64_t>(k))];
}

void preempt(YieldKind k)
{
    Outside o;
    int t = pick_other(tls.tid);
    if (t == tls.tid) return;
    S.budget--;
    S.trace = mix(S.trace, static_cast<uint64_t>(t) * 8 + k + (g_steps >> 4) * 64);
    count(C_f_preempt);
    if (k == Y_STEP) count(C_f_preempt_step);
    if (k == Y_IO) count(C_f_preempt_io);
    if (k == Y_ALLOC) count(C_f_preempt_alloc);
    if (k == Y_MEM) count(C_f_preempt_mem);
    if (elog) elog->add("switch " + std::to_string(tls.tid) + "->" + std::to_string(t) + " k" +
                        std::to_string(k) + " @" + std::to_string(g_steps));
    switch_to(t);
}
} // namespace

bool sched_active() { return S.on; }

// ---------------------------------------------------------------- clocks and randomness
// Time passes with every transfer and every reading of a clock; how fast, and whether the wall clock keeps up, is drawn.
static struct
{
    uint64_t mono = 0, per_io = 0, per_reading = 0;
    int64_t wall = 0;
    bool jumps = false;
    Rng rng{1};
    uint64_t fraction = 0;
} g_clock;
static void pass(uint64_t ns)
{
    g_clock.mono += ns;
    g_clock.fraction += ns;
    if (g_clock.fraction >= 1000000000u) {
        count(C_simulated_s, g_clock.fraction / 1000000000u);
        g_clock.fraction %= 1000000000u;
    }
}
static int64_t read_clock(bool wall)
{
    count(C_clock_reads);
    pass(g_clock.per_reading);
    if (g_clock.jumps && wall && g_clock.rng.below(2) == 0) // set back or forward by up to a day
        g_clock.wall += (static_cast<int64_t>(g_clock.rng.below(172800)) - 86400) * 1000000000;
    return static_cast<int64_t>(g_clock.mono) + (wall ? g_clock.wall : 0);
}
void set_clock(Tape& t)
{
    const uint64_t k = t.draw(8), base = t.draw(8);
    g_clock.mono = 5000000000000ull; // the machine has been up for a while
    g_clock.per_io = k == 4 || k == 5 ? 1000000000ull : k == 6 ? 600000000000ull : 10000;
    g_clock.per_reading = k == 7 ? 86400000000000ull : 1000;
    g_clock.jumps = k == 3 || k == 5;
    static const int64_t bases[] = {1700000000, 1700000000, 1700000000, 1700000000, 1700000000, 0, 2147483640, 4294967290};
    g_clock.wall = bases[base] * 1000000000 - (base > 4 ? static_cast<int64_t>(g_clock.mono) : 0);
    g_clock.rng = Rng(k * 8 + base + 1);
    if (g_clock.per_io > 10000) count(C_f_slow_medium);
    if (g_clock.jumps || k == 7) count(C_f_clock_jump);
    if (base > 4) count(C_f_clock_base);
}

void yield_point(YieldKind k)
{
    if (k == Y_IO) pass(g_clock.per_io);
    if (!S.on || tls.tid < 0 || tls.nopreempt > 0 || S.budget <= 0) return;
    int pct = k == Y_IO ? S.io_pct : k == Y_ALLOC ? S.alloc_pct : k == Y_MEM ? S.mem_pct : 100;
    if (pct == 0) return;
    bool go;
    {
        Outside o;
        go = S.tape->chance(static_cast<uint64_t>(pct), 100);
    }
    if (go) preempt(k);
}

void run_threads(Tape& tape, const std::vector<std::function<void()>>& fns, uint64_t* interleaving)
{
    S = Sched();
    S.n = S.alive = static_cast<int>(fns.size());
    S.tape = &tape;
    S.mode = static_cast<int>(tape.draw(4));
    static const uint64_t means[] = {3000, 30, 200, 1000, 10000, 50000};
    S.mean = means[tape.draw(6)];
    S.budget = S.mode == 2 ? static_cast<int>(1 + tape.draw(4)) : 300;
    static const int pcts[] = {0, 2, 10, 40};
    S.io_pct = pcts[tape.draw(4)];
    S.alloc_pct = S.mode == 3 ? 3 + 10 * static_cast<int>(tape.draw(3)) : 0;
    if (S.mode == 1 && S.io_pct == 0) S.io_pct = 10;
    static const int mems[] = {10, 0, 40, 80};
    S.mem_pct = mems[tape.draw(4)]; // used by the builds that report memory accesses
    for (int i = 0; i < S.n; i++) {
        sem_init(&S.sem[i], 0, 0);
        S.done[i] = false;
    }
    sem_init(&S.main_sem, 0, 0);
    S.on = true;
    std::vector<std::thread> ths;
    for (int i = 0; i < S.n; i++) {
        ths.emplace_back([i, &fns]() {
            sem_wait_nointr(&S.sem[i]);
            tls.tid = i;
            next_slice();
            fns[static_cast<size_t>(i)]();
            tls.in_sut = false;
            // account for the unfinished slice
            g_steps += static_cast<uint64_t>(tls.slice - tls.fuel);
            S.done[i] = true;
            S.alive--;
            S.trace = mix(S.trace, 1000 + static_cast<uint64_t>(i));
            if (S.alive == 0)
                sem_post(&S.main_sem);
            else {
                int t = pick_other(i);
                S.cur = t;
                sem_post(&S.sem[t]);
            }
        });
    }
    race_begin();
    S.cur = static_cast<int>(tape.draw(static_cast<uint64_t>(S.n)));
    sem_post(&S.sem[S.cur]);
    sem_wait_nointr(&S.main_sem);
    for (auto& t : ths) t.join();
    S.on = false;
    for (int i = 0; i < S.n; i++) sem_destroy(&S.sem[i]);
    sem_destroy(&S.main_sem);
    if (interleaving) *interleaving = S.trace;
}

double g_cpu_limit = 40;
int64_t g_machine_memory = kMachineMemory;
void reset_steps(uint64_t limit)
{
    g_steps = 0;
    g_step_limit = limit;
    set_slice(1 << 16);
}

static void note_and_exit(int code, const char* what)
{
    // The parent turns the exit code into a violation record.
    ssize_t r = ::syscall(SYS_write, 2, what, strlen(what));
    (void)r;
    _exit(code);
}

__attribute__((noinline)) static void slow_step()
{
    g_steps += static_cast<uint64_t>(tls.slice);
    if (g_steps > g_step_limit) note_and_exit(kExitHang, "SIM: step limit exceeded\n");
    bool due = S.on && tls.tid >= 0 && tls.slice != (1 << 16);
    if (due && tls.nopreempt == 0 && S.budget > 0) preempt(Y_STEP);
    // fair in the long run: a thread that waits for another in a loop of its own gets its turn over with
    if (S.on && tls.tid >= 0 && tls.nopreempt == 0 && ++S.slices > 16 && tls.slice == (1 << 16)) {
        Outside o;
        S.slices = 0;
        switch_to(pick_next(tls.tid));
    }
    next_slice();
}

} // namespace sim

using namespace sim;

// ================================================================ data races
// Two accesses to the same bytes by different threads, one of them a write, with no synchronisation between
// them. Whatever a thread does to synchronise (a lock, an atomic operation, a once-flag, a file being opened)
// is taken to order it after everything any thread did before its own last such step: that finds fewer races than there are,
// and never one where there is none. Watched are the static data of the program and what the run has registered.
extern "C" {
extern char __executable_start;
extern char __data_start;
extern char _end;
}
namespace sim {
namespace {
constexpr size_t kCells = 1 << 16;
struct Cell
{
    uintptr_t granule;
    uint32_t gen, filled;
    int8_t wtid;
    uint8_t wmask;
    uint64_t wclock;
    uintptr_t wpc;
    uint8_t rmask[kMaxThreads];
    uint64_t rclock[kMaxThreads];
    uintptr_t rpc[kMaxThreads];
};
struct Races
{
    Cell* cells = nullptr;
    uint32_t gen = 0;
    size_t used = 0;
    uint64_t clock[kMaxThreads][kMaxThreads];
    uint64_t global[kMaxThreads];
    std::vector<std::pair<uintptr_t, uintptr_t>> watched; // sorted
    uintptr_t lo = 0, hi = 0; // all of these
    std::string found;
} R;

bool race_watched(uintptr_t p)
{
    if (p >= reinterpret_cast<uintptr_t>(&__data_start) && p < reinterpret_cast<uintptr_t>(&_end)) {
        for (const void* st : {static_cast<const void*>(&std::cin), static_cast<const void*>(&std::cout), static_cast<const void*>(&std::cerr), static_cast<const void*>(&std::clog)}) {
            const uintptr_t q = reinterpret_cast<uintptr_t>(st);
            if (p >= q && p < q + sizeof(std::iostream)) return false; // these may be used by all
        }
        return true;
    }
    if (p < R.lo || p >= R.hi) return false;
    auto i = std::upper_bound(R.watched.begin(), R.watched.end(), p, [](uintptr_t x, const std::pair<uintptr_t, uintptr_t>& r) { return x < r.first; });
    return i != R.watched.begin() && p < (--i)->second;
}
Cell* race_cell(uintptr_t granule)
{
    size_t h = static_cast<size_t>(mix(granule, 77)) % kCells;
    for (int k = 0; k < 64; k++, h = (h + 1) % kCells) {
        Cell& c = R.cells[h];
        if (c.gen != R.gen) {
            if (R.used > kCells / 2) return nullptr;
            R.used++;
            memset(&c, 0, sizeof c);
            c.gen = R.gen, c.granule = granule, c.wtid = -1;
            return &c;
        }
        if (c.granule == granule) return &c;
    }
    return nullptr;
}
void race_report(const char* a, int ta, uintptr_t pa, const char* b, int tb, uintptr_t pb, uintptr_t at)
{
    Outside o;
    const uintptr_t base = reinterpret_cast<uintptr_t>(&__executable_start);
    const bool global = at >= reinterpret_cast<uintptr_t>(&__data_start) && at < reinterpret_cast<uintptr_t>(&_end);
    char buf[300];
    snprintf(buf, sizeof buf, "thread %d %s %s that thread %d %s, and nothing orders the two (code at %#llx and %#llx of the runner)", tb, b,
        global ? "static data of the library" : "a shared spec", ta, a, static_cast<unsigned long long>(pa - base), static_cast<unsigned long long>(pb - base));
    R.found = buf;
}
void race_slow(uintptr_t p, size_t n, bool write, uintptr_t pc)
{
    Outside o;
    const int me = tls.tid;
    for (uintptr_t g = p & ~uintptr_t(7); g < p + n && R.found.empty(); g += 8) {
        const uintptr_t lo = std::max(g, p), hi = std::min(g + 8, p + n);
        if (!race_watched(lo)) continue;
        const uint8_t mask = static_cast<uint8_t>(((1u << (hi - g)) - 1) & ~((1u << (lo - g)) - 1));
        Cell* c = race_cell(g);
        if (!c) return;
        count(C_race_accesses);
        if (c->wtid >= 0 && c->wtid != me && (c->wmask & mask) && c->wclock > R.clock[me][c->wtid])
            race_report("writes", c->wtid, c->wpc, write ? "writes" : "reads", me, pc, lo);
        if (write) {
            for (int k = 0; k < kMaxThreads; k++)
                if (k != me && (c->rmask[k] & mask) && c->rclock[k] > R.clock[me][k]) race_report("reads", k, c->rpc[k], "writes", me, pc, lo);
            const bool more = c->wtid == me && c->wclock == R.clock[me][me];
            c->wtid = static_cast<int8_t>(me), c->wclock = R.clock[me][me], c->wpc = pc;
            c->wmask = more ? c->wmask | mask : mask;
        } else {
            const bool more = c->rclock[me] == R.clock[me][me];
            c->rclock[me] = R.clock[me][me], c->rpc[me] = pc;
            c->rmask[me] = more ? c->rmask[me] | mask : mask;
        }
    }
}
inline void race_access(const void* a, size_t n, bool write, uintptr_t pc)
{
    if (!tls.in_sut || tls.tid < 0 || !S.on || n == 0) return;
    const uintptr_t p = reinterpret_cast<uintptr_t>(a);
    const bool global = p + n > reinterpret_cast<uintptr_t>(&__data_start) && p < reinterpret_cast<uintptr_t>(&_end);
    if (!global && (p + n <= R.lo || p >= R.hi)) return;
    race_slow(p, n, write, pc);
}
void race_begin()
{
    if (!R.cells)
        R.cells = static_cast<Cell*>(mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    R.gen++, R.used = 0;
    R.found.clear();
    for (int i = 0; i < kMaxThreads; i++) {
        R.global[i] = 0;
        for (int k = 0; k < kMaxThreads; k++) R.clock[i][k] = i == k ? 1 : 0;
    }
    std::sort(R.watched.begin(), R.watched.end());
    R.lo = R.watched.empty() ? 0 : R.watched.front().first;
    R.hi = R.watched.empty() ? 0 : R.watched.back().second;
}
} // namespace
void race_watch(const void* p, size_t n)
{
    if (n) R.watched.emplace_back(reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n);
}
std::string race_end()
{
    R.watched.clear();
    R.lo = R.hi = 0;
    return R.found;
}
void race_sync()
{
    const int me = tls.tid;
    if (me < 0 || !S.on) return;
    for (int k = 0; k < kMaxThreads; k++) {
        if (R.global[k] > R.clock[me][k]) R.clock[me][k] = R.global[k];
        R.global[k] = R.clock[me][k];
    }
    R.clock[me][me]++;
}
} // namespace sim

extern "C" {
extern char etext;
void __sanitizer_cov_trace_pc(void);
void __sanitizer_cov_trace_pc(void)
{
    Tls& t = tls;
    if (__builtin_expect(!t.in_sut, 0)) return;
    uintptr_t pc = (reinterpret_cast<uintptr_t>(__builtin_return_address(0)) -
                       reinterpret_cast<uintptr_t>(&__executable_start)) >>
                   2;
    if (shm && pc < kCovBytes) shm->cov[pc] = 1;
    const uintptr_t sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    if (sp < t.stack_low) t.stack_low = sp;
    if (--t.fuel <= 0) slow_step();
}

// Memory accesses, in the builds that report them: a switch may fall between any two of them, and those to
// global variables, where what threads share without asking would be, are favoured.
extern char __data_start;
extern char _end;
static inline void mem_access(const void* a)
{
    Tls& t = tls;
    if (!t.in_sut || t.tid < 0) return;
    const char* p = static_cast<const char*>(a);
    if (p >= &__data_start && p < &_end) yield_point(Y_MEM);
    if (--t.fuel <= 0) slow_step();
}
static inline void atomic_point(const void* a)
{
    mem_access(a);
    if (tls.in_sut) race_sync();
}
#define SIM_PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define SIM_ACCESS(name, n, w) \
    void __tsan_##name(void* a); \
    void __tsan_##name(void* a) \
    { \
        mem_access(a); \
        race_access(a, n, w, SIM_PC); \
    }
SIM_ACCESS(read1, 1, false)
SIM_ACCESS(read2, 2, false)
SIM_ACCESS(read4, 4, false)
SIM_ACCESS(read8, 8, false)
SIM_ACCESS(read16, 16, false)
SIM_ACCESS(write1, 1, true)
SIM_ACCESS(write2, 2, true)
SIM_ACCESS(write4, 4, true)
SIM_ACCESS(write8, 8, true)
SIM_ACCESS(write16, 16, true)
SIM_ACCESS(unaligned_read2, 2, false)
SIM_ACCESS(unaligned_read4, 4, false)
SIM_ACCESS(unaligned_read8, 8, false)
SIM_ACCESS(unaligned_read16, 16, false)
SIM_ACCESS(unaligned_write2, 2, true)
SIM_ACCESS(unaligned_write4, 4, true)
SIM_ACCESS(unaligned_write8, 8, true)
SIM_ACCESS(unaligned_write16, 16, true)
SIM_ACCESS(vptr_read, 8, false)
#undef SIM_ACCESS
void __tsan_vptr_update(void** a, void*);
void __tsan_vptr_update(void** a, void*) { race_access(a, 8, true, SIM_PC); }
#define SIM_RANGE(name, w) \
    void __tsan_##name(void* a, size_t n); \
    void __tsan_##name(void* a, size_t n) { race_access(a, n, w, SIM_PC); }
SIM_RANGE(read_range, false)
SIM_RANGE(write_range, true)
#undef SIM_RANGE
void __tsan_init(void);
void __tsan_init(void) {}
void __tsan_func_entry(void*);
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void);
void __tsan_func_exit(void) {}
void* __tsan_memcpy(void* d, const void* s, size_t n);
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    race_access(s, n, false, SIM_PC);
    race_access(d, n, true, SIM_PC);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n);
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    race_access(s, n, false, SIM_PC);
    race_access(d, n, true, SIM_PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n);
void* __tsan_memset(void* d, int c, size_t n)
{
    race_access(d, n, true, SIM_PC);
    return memset(d, c, n);
}
// Atomic operations order everything around them; which one it is does not matter under the simulator.
#define SIM_ATOMICS(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int); \
    T __tsan_atomic##b##_load(const volatile T* a, int) \
    { \
        atomic_point(const_cast<T*>(a)); \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int); \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) \
    { \
        atomic_point(const_cast<T*>(a)); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int); \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) \
    { \
        atomic_point(const_cast<T*>(a)); \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int); \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) \
    { \
        atomic_point(const_cast<T*>(a)); \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int); \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) \
    { \
        atomic_point(const_cast<T*>(a)); \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int); \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T e, T v, int, int) \
    { \
        atomic_point(const_cast<T*>(a)); \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return e; \
    }
#define SIM_FETCH(b, T, op) \
    T __tsan_atomic##b##_fetch_##op(volatile T* a, T v, int); \
    T __tsan_atomic##b##_fetch_##op(volatile T* a, T v, int) \
    { \
        atomic_point(const_cast<T*>(a)); \
        return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST); \
    }
#define SIM_ALL(b, T) \
    SIM_ATOMICS(b, T) \
    SIM_FETCH(b, T, add) SIM_FETCH(b, T, sub) SIM_FETCH(b, T, and) SIM_FETCH(b, T, or) SIM_FETCH(b, T, xor) SIM_FETCH(b, T, nand)
SIM_ALL(8, uint8_t)
SIM_ALL(16, uint16_t)
SIM_ALL(32, uint32_t)
SIM_ALL(64, uint64_t)
#undef SIM_ALL
#undef SIM_FETCH
#undef SIM_ATOMICS
void __tsan_atomic_thread_fence(int);
void __tsan_atomic_thread_fence(int) { race_sync(); }
void __tsan_atomic_signal_fence(int);
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks taken by the library, if any
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!S.on || tls.tid < 0 || !tls.in_sut) return __real_pthread_mutex_lock(m);
    uint64_t spins = 0;
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) {
            race_sync();
            return r;
        }
        count(C_f_mutex_block);
        Outside o;
        int t = pick_other(tls.tid);
        if (t == tls.tid || ++spins > 200000) note_and_exit(kExitDeadlock, "SIM: deadlock\n");
        switch_to(t);
    }
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!S.on || tls.tid < 0 || !tls.in_sut) return __real_pthread_rwlock_wrlock(m);
    uint64_t spins = 0;
    for (;;) {
        int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) {
            race_sync();
            return r;
        }
        Outside o;
        int t = pick_other(tls.tid);
        if (t == tls.tid || ++spins > 200000) note_and_exit(kExitDeadlock, "SIM: deadlock\n");
        switch_to(t);
    }
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!S.on || tls.tid < 0 || !tls.in_sut) return __real_pthread_rwlock_rdlock(m);
    uint64_t spins = 0;
    for (;;) {
        int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY && r != EAGAIN) {
            race_sync();
            return r;
        }
        Outside o;
        int t = pick_other(tls.tid);
        if (t == tls.tid || ++spins > 200000) note_and_exit(kExitDeadlock, "SIM: deadlock\n");
        switch_to(t);
    }
}
// Whatever else orders threads.
#define SIM_SYNC(name, T, ...) \
    int __real_##name(T*); \
    int __wrap_##name(T* m); \
    int __wrap_##name(T* m) \
    { \
        if (tls.in_sut) race_sync(); \
        const int r = __real_##name(m); \
        if (tls.in_sut) race_sync(); \
        return r; \
    }
SIM_SYNC(pthread_mutex_unlock, pthread_mutex_t)
SIM_SYNC(pthread_mutex_trylock, pthread_mutex_t)
SIM_SYNC(pthread_rwlock_unlock, pthread_rwlock_t)
SIM_SYNC(pthread_rwlock_tryrdlock, pthread_rwlock_t)
SIM_SYNC(pthread_rwlock_trywrlock, pthread_rwlock_t)
SIM_SYNC(pthread_spin_unlock, int volatile)
SIM_SYNC(pthread_spin_trylock, int volatile)
SIM_SYNC(sem_post, sem_t)
SIM_SYNC(sem_trywait, sem_t)
#undef SIM_SYNC
int __real_pthread_spin_lock(int volatile*);
int __wrap_pthread_spin_lock(int volatile* l);
int __wrap_pthread_spin_lock(int volatile* l)
{
    if (!S.on || tls.tid < 0 || !tls.in_sut) return __real_pthread_spin_lock(l);
    uint64_t spins = 0;
    for (;;) {
        const int r = pthread_spin_trylock(l);
        if (r != EBUSY) {
            race_sync();
            return r;
        }
        Outside o;
        int t = pick_other(tls.tid);
        if (t == tls.tid || ++spins > 200000) note_and_exit(kExitDeadlock, "SIM: deadlock\n");
        switch_to(t);
    }
}
int __real_sem_wait(sem_t*);
int __wrap_sem_wait(sem_t* m);
int __wrap_sem_wait(sem_t* m)
{
    if (!S.on || tls.tid < 0 || !tls.in_sut) return __real_sem_wait(m);
    uint64_t spins = 0;
    for (;;) {
        if (sem_trywait(m) == 0) {
            race_sync();
            return 0;
        }
        if (errno != EAGAIN) return -1;
        Outside o;
        int t = pick_other(tls.tid);
        if (t == tls.tid || ++spins > 200000) note_and_exit(kExitDeadlock, "SIM: deadlock\n");
        switch_to(t);
    }
}
// Inside std::atomic_load and the like of shared pointers the C++ library holds a lock of its own.
void __real__ZNSt10_Sp_lockerC1EPKv(void*, const void*);
void __wrap__ZNSt10_Sp_lockerC1EPKv(void* me, const void* p);
void __wrap__ZNSt10_Sp_lockerC1EPKv(void* me, const void* p)
{
    tls.nopreempt++;
    __real__ZNSt10_Sp_lockerC1EPKv(me, p);
    if (tls.in_sut) race_sync();
}
void __real__ZNSt10_Sp_lockerC1EPKvS1_(void*, const void*, const void*);
void __wrap__ZNSt10_Sp_lockerC1EPKvS1_(void* me, const void* p, const void* q);
void __wrap__ZNSt10_Sp_lockerC1EPKvS1_(void* me, const void* p, const void* q)
{
    tls.nopreempt++;
    __real__ZNSt10_Sp_lockerC1EPKvS1_(me, p, q);
    if (tls.in_sut) race_sync();
}
void __real__ZNSt10_Sp_lockerD1Ev(void*);
void __wrap__ZNSt10_Sp_lockerD1Ev(void* me);
void __wrap__ZNSt10_Sp_lockerD1Ev(void* me)
{
    if (tls.in_sut) race_sync();
    __real__ZNSt10_Sp_lockerD1Ev(me);
    tls.nopreempt--;
}
// Waiting for a file lock, for a condition or for time to pass: the others go on meanwhile.
static bool give_way(uint64_t& spins)
{
    if (!S.on || tls.tid < 0) return false;
    Outside o;
    const int t = pick_other(tls.tid);
    if (t == tls.tid || ++spins > 200000) note_and_exit(kExitDeadlock, "SIM: deadlock\n");
    switch_to(t);
    return true;
}
int __real_flock(int, int);
int __wrap_flock(int fd, int op);
int __wrap_flock(int fd, int op)
{
    if (tls.in_sut) race_sync();
    if (!tls.in_sut || (op & LOCK_NB) || (op & LOCK_UN)) return __real_flock(fd, op);
    uint64_t spins = 0;
    for (;;) {
        const int r = __real_flock(fd, op | LOCK_NB);
        race_sync();
        if (r == 0 || errno != EWOULDBLOCK) return r;
        if (!give_way(spins)) note_and_exit(kExitDeadlock, "SIM: deadlock\n"); // nobody else could let go of it
    }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    using Fn = int (*)(pthread_cond_t*, pthread_mutex_t*);
    static const Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "pthread_cond_wait"));
    if (!S.on || tls.tid < 0 || !tls.in_sut) return real(c, m);
    pthread_mutex_unlock(m); // a wake-up without a reason, as conditions may have them
    uint64_t spins = 0;
    if (++tls.idle_wakes > 200000) note_and_exit(kExitDeadlock, "SIM: deadlock\n");
    give_way(spins);
    return __wrap_pthread_mutex_lock(m);
}
static int pass_time(const timespec* t)
{
    if (t) pass(static_cast<uint64_t>(t->tv_sec) * 1000000000u + static_cast<uint64_t>(t->tv_nsec));
    if (t) count(C_slept_us, static_cast<uint64_t>(t->tv_sec) * 1000000u + static_cast<uint64_t>(t->tv_nsec) / 1000u);
    yield_point(Y_IO);
    return 0;
}
int __real_nanosleep(const timespec*, timespec*);
int __wrap_nanosleep(const timespec* t, timespec* rest);
int __wrap_nanosleep(const timespec* t, timespec* rest) { return tls.in_sut ? pass_time(t) : __real_nanosleep(t, rest); }
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __wrap_clock_nanosleep(clockid_t k, int flags, const timespec* t, timespec* rest);
int __wrap_clock_nanosleep(clockid_t k, int flags, const timespec* t, timespec* rest)
{
    return tls.in_sut ? pass_time(flags ? nullptr : t) : __real_clock_nanosleep(k, flags, t, rest);
}
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t u);
int __wrap_usleep(useconds_t u)
{
    if (!tls.in_sut) return __real_usleep(u);
    const timespec t = {static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000};
    return pass_time(&t);
}
int __real_clock_gettime(clockid_t, timespec*);
int __wrap_clock_gettime(clockid_t k, timespec* t);
int __wrap_clock_gettime(clockid_t k, timespec* t)
{
    if (!tls.in_sut) return __real_clock_gettime(k, t);
    const int64_t ns = read_clock(k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE);
    t->tv_sec = static_cast<time_t>(ns / 1000000000);
    t->tv_nsec = static_cast<long>(ns % 1000000000);
    return 0;
}
int __real_gettimeofday(timeval*, void*);
int __wrap_gettimeofday(timeval* t, void* zone);
int __wrap_gettimeofday(timeval* t, void* zone)
{
    if (!tls.in_sut) return __real_gettimeofday(t, zone);
    const int64_t ns = read_clock(true);
    t->tv_sec = static_cast<time_t>(ns / 1000000000);
    t->tv_usec = static_cast<suseconds_t>(ns % 1000000000 / 1000);
    return 0;
}
time_t __real_time(time_t*);
time_t __wrap_time(time_t* t);
time_t __wrap_time(time_t* t)
{
    if (!tls.in_sut) return __real_time(t);
    const time_t s = static_cast<time_t>(read_clock(true) / 1000000000);
    if (t) *t = s;
    return s;
}
clock_t __real_clock();
clock_t __wrap_clock();
clock_t __wrap_clock() { return tls.in_sut ? static_cast<clock_t>(read_clock(false) / 1000) : __real_clock(); }
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return tls.in_sut ? read_clock(false) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv();
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return tls.in_sut ? read_clock(true) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* me);
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* me)
{
    return tls.in_sut ? static_cast<unsigned>(g_clock.rng.next()) : __real__ZNSt13random_device9_M_getvalEv(me);
}
static void random_bytes(void* p, size_t n)
{
    for (size_t i = 0; i < n; i++) static_cast<unsigned char*>(p)[i] = static_cast<unsigned char>(g_clock.rng.next());
}
ssize_t __real_getrandom(void*, size_t, unsigned);
ssize_t __wrap_getrandom(void* p, size_t n, unsigned f);
ssize_t __wrap_getrandom(void* p, size_t n, unsigned f)
{
    if (!tls.in_sut) return __real_getrandom(p, n, f);
    random_bytes(p, n);
    return static_cast<ssize_t>(n);
}
int __real_getentropy(void*, size_t);
int __wrap_getentropy(void* p, size_t n);
int __wrap_getentropy(void* p, size_t n)
{
    if (!tls.in_sut) return __real_getentropy(p, n);
    random_bytes(p, n);
    return 0;
}
pid_t __real_getpid();
pid_t __wrap_getpid();
pid_t __wrap_getpid() { return tls.in_sut ? 4242 : __real_getpid(); }
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (tls.in_sut) race_sync();
    tls.nopreempt++;
    int r = __real_pthread_once(o, f);
    tls.nopreempt--;
    if (tls.in_sut) race_sync();
    return r;
}
// Function-local statics: never preempt inside their initialisation.
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __wrap___cxa_guard_acquire(uint64_t* g);
void __wrap___cxa_guard_release(uint64_t* g);
void __wrap___cxa_guard_abort(uint64_t* g);
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (tls.in_sut) race_sync();
    if (r) tls.nopreempt++;
    return r;
}
void __wrap___cxa_guard_release(uint64_t* g)
{
    if (tls.in_sut) race_sync();
    __real___cxa_guard_release(g);
    tls.nopreempt--;
}
void __wrap___cxa_guard_abort(uint64_t* g)
{
    __real___cxa_guard_abort(g);
    tls.nopreempt--;
}
} // extern "C"

// ================================================================ memory
namespace {

inline bool should_fail(size_t n)
{
    Tls& t = tls;
    int64_t idx = t.alloc_index++;
    if (t.fail_at >= 0 && (idx == t.fail_at || (t.fail_persistent && idx > t.fail_at))) {
        t.fired++;
        return true;
    }
    if (t.fail_size && n >= t.fail_size) {
        t.fired++;
        return true;
    }
    if (t.budget_max && (n > (1ull << 40) || t.budget_live + static_cast<int64_t>(n) > t.budget_max)) {
        t.budget_fired++;
        return true;
    }
    if (n > static_cast<size_t>(g_machine_memory) || t.budget_live + static_cast<int64_t>(n) > g_machine_memory) return true;
    return false;
}

// Whether the caller is the C or C++ library rather than the code under test.
bool cxx_caller(const void* ra)
{
    return !(ra >= static_cast<const void*>(&__executable_start) && ra < static_cast<const void*>(&etext));
}

#ifdef SIM_PLAIN
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_memalign(size_t, size_t);
void* raw_alloc(size_t n, size_t align)
{
    void* p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
    if (p) g_raw_blocks.fetch_add(1, std::memory_order_relaxed);
    return p;
}
#else
void* raw_alloc(size_t n, size_t align) { return align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n); }
#endif

void* sim_alloc(size_t n, size_t align, bool nothrow)
{
    Tls& t = tls;
    if (t.in_sut) {
        if (should_fail(n)) {
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        yield_point(Y_ALLOC);
    }
    void* p = raw_alloc(n ? n : 1, align);
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    const int64_t size = static_cast<int64_t>(malloc_usable_size(p));
    g_live_blocks.fetch_add(1, std::memory_order_relaxed);
    g_live_bytes.fetch_add(size, std::memory_order_relaxed);
    if (t.in_sut) {
        t.budget_live += size;
        t.alloc_bytes += n;
        if (t.budget_live > t.peak_live) t.peak_live = t.budget_live;
        Outside o;
        memset(p, g_fill, n);
    }
    return p;
}
void sim_free(void* p)
{
    if (!p) return;
    g_live_blocks.fetch_sub(1, std::memory_order_relaxed);
    const int64_t size = static_cast<int64_t>(malloc_usable_size(p));
    g_live_bytes.fetch_sub(size, std::memory_order_relaxed);
    if (tls.in_sut) tls.budget_live -= size;
    free(p);
}
} // namespace

// Memory and files the library maps itself.
extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
bool sim_is_pipe(int fd);
void* __wrap_mmap(void* at, size_t n, int prot, int flags, int fd, off_t off);
int __wrap_munmap(void* p, size_t n);
void* __wrap_mmap(void* at, size_t n, int prot, int flags, int fd, off_t off)
{
    if (tls.in_sut) {
        yield_point(Y_ALLOC);
        bool fails;
        {
            Outside o;
            fails = should_fail(n);
        }
        if (fails) {
            errno = ENOMEM;
            return MAP_FAILED;
        }
        if (sim_is_pipe(fd)) {
            errno = ENODEV;
            return MAP_FAILED;
        }
    }
    void* p = __real_mmap(at, n, prot, flags, fd, off);
    if (p != MAP_FAILED && tls.in_sut) g_maps.fetch_add(1, std::memory_order_relaxed);
    return p;
}
int __wrap_munmap(void* p, size_t n)
{
    const int r = __real_munmap(p, n);
    if (!r && tls.in_sut) g_maps.fetch_sub(1, std::memory_order_relaxed);
    return r;
}
}

#ifdef SIM_PLAIN
// Every heap block of the process, also those the C library and the C++ runtime take for a call.
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
// A block the library takes from the C library itself.
static bool own_block_fails(size_t n, const void* ra)
{
    if (!tls.in_sut || cxx_caller(ra)) return false;
    bool r;
    {
        Outside o;
        r = should_fail(n);
    }
    if (r) errno = ENOMEM;
    return r;
}
static void own_block(void* p, size_t n, const void* ra)
{
    if (!p || !tls.in_sut || cxx_caller(ra)) return;
    tls.alloc_bytes += n;
    Outside o;
    memset(p, g_fill, n);
}
void* malloc(size_t n)
{
    if (own_block_fails(n, __builtin_return_address(0))) return nullptr;
    void* p = __libc_malloc(n);
    if (p) g_raw_blocks.fetch_add(1, std::memory_order_relaxed);
    own_block(p, n, __builtin_return_address(0));
    return p;
}
void free(void* p)
{
    if (p) g_raw_blocks.fetch_sub(1, std::memory_order_relaxed);
    __libc_free(p);
}
void* calloc(size_t a, size_t b)
{
    if (own_block_fails(a * b, __builtin_return_address(0))) return nullptr;
    void* p = __libc_calloc(a, b);
    if (p) g_raw_blocks.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (n && own_block_fails(n, __builtin_return_address(0))) return nullptr;
    void* q = __libc_realloc(p, n);
    if (!p && q) g_raw_blocks.fetch_add(1, std::memory_order_relaxed);
    if (p && !n && !q) g_raw_blocks.fetch_sub(1, std::memory_order_relaxed);
    return q;
}
void* memalign(size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    if (p) g_raw_blocks.fetch_add(1, std::memory_order_relaxed);
    return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }

// What the library has the C library copy, fill, compare and search: work the step counter does not see.
#define SIM_MEM(ret, name, params, args, n, slow) \
    ret name params; \
    ret name params \
    { \
        using Fn = ret(*) params; \
        static Fn real; \
        static int resolving; \
        if (tls.in_sut) tls.moved += n; \
        if (__builtin_expect(!real, 0)) { \
            if (resolving) slow \
            resolving = 1; \
            real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, #name)); \
        } \
        return real args; \
    }
SIM_MEM(void*, memcpy, (void* __restrict d, const void* __restrict s, size_t n), (d, s, n), n, {
    volatile char* a = static_cast<char*>(d);
    const char* b = static_cast<const char*>(s);
    for (size_t i = 0; i < n; i++) a[i] = b[i];
    return d;
})
SIM_MEM(void*, memmove, (void* d, const void* s, size_t n), (d, s, n), n, {
    volatile char* a = static_cast<char*>(d);
    const volatile char* b = static_cast<const char*>(s);
    if (a < b)
        for (size_t i = 0; i < n; i++) a[i] = b[i];
    else
        for (size_t i = n; i-- > 0;) a[i] = b[i];
    return d;
})
SIM_MEM(void*, memset, (void* d, int c, size_t n), (d, c, n), n, {
    volatile char* a = static_cast<char*>(d);
    for (size_t i = 0; i < n; i++) a[i] = static_cast<char>(c);
    return d;
})
void* sim_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* sim_memchr(const void* p, int c, size_t n)
{
    using Fn = void* (*)(const void*, int, size_t);
    static Fn real;
    static int resolving;
    if (__builtin_expect(!real, 0)) {
        if (resolving) {
            const volatile unsigned char* a = static_cast<const unsigned char*>(p);
            for (size_t i = 0; i < n; i++)
                if (a[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(static_cast<const unsigned char*>(p)) + i;
            return nullptr;
        }
        resolving = 1;
        real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "memchr"));
    }
    void* r = real(p, c, n);
    if (tls.in_sut) tls.moved += r ? static_cast<size_t>(static_cast<char*>(r) - static_cast<const char*>(p)) + 1 : n;
    return r;
}
SIM_MEM(int, memcmp, (const void* x, const void* y, size_t n), (x, y, n), n, {
    const volatile unsigned char* a = static_cast<const unsigned char*>(x);
    const volatile unsigned char* b = static_cast<const unsigned char*>(y);
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return 0;
})
int posix_memalign(void** out, size_t a, size_t n)
{
    void* p = memalign(a, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
}
#endif

void* operator new(size_t n) { return sim_alloc(n, 0, false); }
void* operator new[](size_t n) { return sim_alloc(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim_alloc(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return sim_alloc(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return sim_alloc(n, size_t(a), false); }
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim_free(p); }

// ================================================================ files
namespace {
std::string g_scratch;
pid_t g_scratch_owner = 0;
static pid_t real_pid() { return static_cast<pid_t>(syscall(SYS_getpid)); }

struct FdState
{
    bool tracked = false, writer = false;
    bool pipe = false; // cannot seek and has no size
    int64_t pos = 0;
    int eintr_run = 0;
};
constexpr int kMaxFd = 1024;
FdState g_fd[kMaxFd];
thread_local bool g_c_stdio = false; // C streams do not repeat interrupted calls on any system; not the library's concern
Rng g_fsrng(0);

// The faults of the calling thread.
FsPlan& faults() { return tls.plan ? *tls.plan : fs; }

bool in_scratch(const char* p)
{
    if (!fs.on || g_scratch.empty() || !p) return false;
    if (p[0] != '/') return true; // the working directory is the scratch directory
    return strncmp(p, g_scratch.c_str(), g_scratch.size()) == 0;
}
FdState* tracked(int fd)
{
    if (!fs.on || fd < 0 || fd >= kMaxFd || !g_fd[fd].tracked) return nullptr;
    return &g_fd[fd];
}
void track(int fd, bool writer, bool append)
{
    if (fd < 0 || fd >= kMaxFd) return;
    g_fd[fd] = FdState();
    g_fd[fd].tracked = true;
    g_fd[fd].writer = writer;
    g_fd[fd].pipe = faults().pipe;
    if (g_fd[fd].pipe) count(C_f_pipe);
    if (append) g_fd[fd].pos = ::syscall(SYS_lseek, fd, 0, SEEK_END);
}
size_t shorten(size_t n)
{
    if (n <= 1 || fs.shortness == 0) return n;
    if (fs.shortness == 1 && g_fsrng.below(3)) return n;
    switch (g_fsrng.below(3)) {
    case 0: return 1 + g_fsrng.below(n < 16 ? n : 16);
    case 1: return n - 1;
    default: return 1 + g_fsrng.below(n);
    }
}
bool interrupted(FdState* f)
{
    if (fs.eintr == 0 || g_c_stdio) return false;
    if (f->eintr_run < 3 && g_fsrng.below(100) < static_cast<uint64_t>(fs.eintr)) {
        f->eintr_run++;
        errno = EINTR;
        return true;
    }
    f->eintr_run = 0;
    return false;
}
// One more call that changes the disk. Returns false if the process is already dead.
bool alive_mutation(bool* torn)
{
    if (torn) *torn = false;
    if (fs.crashed) return false;
    int64_t idx = static_cast<int64_t>(fs.mutating++);
    if (fs.crash_at >= 0 && idx >= fs.crash_at) {
        fs.crashed = 1;
        if (torn && fs.crash_torn) *torn = true;
        return false;
    }
    return true;
}

ssize_t do_read(int fd, void* buf, size_t n, FdState* f)
{
    Outside o;
    yield_point(Y_IO);
    fs.calls++;
    fs.read_calls++;
    if (interrupted(f)) {
        count(C_f_read_eintr);
        return -1;
    }
    if (faults().read_fail_at >= 0 && (faults().read_sticky || !faults().read_fired)) {
        if (f->pos >= faults().read_fail_at) {
            faults().read_fired++;
            char c;
            bool at_eof = ::syscall(SYS_pread64, fd, &c, 1, f->pos) == 0;
            count(at_eof ? C_f_read_eio_at_eof : C_f_read_eio);
            logf("read error errno=%d at byte %lld", faults().read_errno, static_cast<long long>(f->pos));
            errno = faults().read_errno;
            return -1;
        }
        if (static_cast<int64_t>(n) > faults().read_fail_at - f->pos)
            n = static_cast<size_t>(faults().read_fail_at - f->pos);
    }
    size_t m = shorten(n);
    if (m < n) count(C_f_read_short);
    ssize_t r = ::syscall(SYS_read, fd, buf, m);
    if (r > 0) f->pos += r, fs.bytes_in += static_cast<uint64_t>(r);
    return r;
}

ssize_t do_write(int fd, const char* buf, size_t n, FdState* f)
{
    Outside o;
    yield_point(Y_IO);
    fs.calls++;
    fs.write_calls++;
    if (interrupted(f)) {
        count(C_f_write_eintr);
        return -1;
    }
    bool torn = false;
    if (!alive_mutation(&torn)) {
        if (torn) {
            size_t m = static_cast<size_t>(g_fsrng.below(n + 1));
            count(C_f_torn_write);
            ssize_t r = ::syscall(SYS_write, fd, buf, m);
            (void)r;
        }
        return static_cast<ssize_t>(n); // nobody is left to see the result
    }
    if (faults().write_fail_at >= 0 && (faults().write_sticky || !faults().write_fired)) {
        if (f->pos >= faults().write_fail_at) {
            faults().write_fired++;
            count(faults().write_errno == ENOSPC ? C_f_write_enospc : C_f_write_eio);
            logf("write error errno=%d at byte %lld", faults().write_errno, static_cast<long long>(f->pos));
            errno = faults().write_errno;
            return -1;
        }
        if (static_cast<int64_t>(n) > faults().write_fail_at - f->pos)
            n = static_cast<size_t>(faults().write_fail_at - f->pos);
    }
    size_t m = shorten(n);
    if (m < n) count(C_f_write_short);
    ssize_t r = ::syscall(SYS_write, fd, buf, m);
    if (r > 0) f->pos += r, fs.bytes_out += static_cast<uint64_t>(r);
    return r;
}

template <typename F>
F next_fn(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

int sim_open(const char* p, int flags, mode_t mode)
{
    if (!in_scratch(p)) return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p, flags, mode));
    Outside o;
    yield_point(Y_IO);
    race_sync(); // opening, renaming and removing files may serve as locks
    fs.calls++;
    bool w = (flags & O_ACCMODE) != O_RDONLY;
    if (faults().open_errno) {
        faults().open_fired++;
        count(C_f_open_fail);
        errno = faults().open_errno;
        return -1;
    }
    if (w && faults().read_only) {
        errno = EACCES;
        return -1;
    }
    if (w && !alive_mutation(nullptr))
        return static_cast<int>(::syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0));
    int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, p, flags, mode));
    if (fd >= 0) track(fd, w, (flags & O_APPEND) != 0);
    return fd;
}

// C streams the library itself opens. glibc transfers their data without calling anything that could be replaced here, so
// they are made of callbacks; those of the C++ library, which only uses their descriptor, stay real.
struct CStream
{
    FILE* f;
    int fd;
};
CStream g_cstreams[64];
CStream* cstream(FILE* f)
{
    for (auto& c : g_cstreams)
        if (c.f == f && f) return &c;
    return nullptr;
}
ssize_t c_read(void* k, char* buf, size_t n)
{
    int fd = static_cast<int>(reinterpret_cast<intptr_t>(k));
    FdState* f = tracked(fd);
    if (!f) return ::syscall(SYS_read, fd, buf, n);
    g_c_stdio = true;
    ssize_t r = do_read(fd, buf, n, f);
    g_c_stdio = false;
    return r;
}
ssize_t c_write(void* k, const char* buf, size_t n)
{
    int fd = static_cast<int>(reinterpret_cast<intptr_t>(k));
    size_t done = 0;
    while (done < n) { // as glibc does for files
        FdState* f = tracked(fd);
        g_c_stdio = true;
        ssize_t r = f ? do_write(fd, buf + done, n - done, f) : ::syscall(SYS_write, fd, buf + done, n - done);
        g_c_stdio = false;
        if (r <= 0) break;
        done += static_cast<size_t>(r);
    }
    return static_cast<ssize_t>(done);
}
int c_seek(void* k, off64_t* off, int wh)
{
    int fd = static_cast<int>(reinterpret_cast<intptr_t>(k));
    off_t r = ::lseek(fd, *off, wh);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
int c_close(void* k) { return ::close(static_cast<int>(reinterpret_cast<intptr_t>(k))); }

FILE* make_cstream(int fd, const char* m)
{
    Outside o;
    cookie_io_functions_t fn{c_read, c_write, c_seek, c_close};
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), m, fn);
    if (!f) return nullptr;
    for (auto& c : g_cstreams)
        if (!c.f) {
            c.f = f, c.fd = fd;
            break;
        }
    return f;
}

FILE* sim_fopen(const char* p, const char* m, bool cxx_library)
{
    using Fn = FILE* (*)(const char*, const char*);
    static Fn real = next_fn<Fn>("fopen");
    if (!in_scratch(p)) return real(p, m);
    const bool w = strpbrk(m, "wa+") != nullptr, plus = strchr(m, '+') != nullptr;
    if (!cxx_library) {
        int flags = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND);
        if (strchr(m, 'x')) flags |= O_EXCL;
        int fd = sim_open(p, flags, 0666);
        if (fd < 0) return nullptr;
        FILE* f = make_cstream(fd, m);
        if (!f) ::close(fd);
        return f;
    }
    Outside o;
    yield_point(Y_IO);
    fs.calls++;
    if (faults().open_errno) {
        faults().open_fired++;
        count(C_f_open_fail);
        logf("open fails errno=%d", faults().open_errno);
        errno = faults().open_errno;
        return nullptr;
    }
    if (w && faults().read_only) {
        errno = EACCES;
        return nullptr;
    }
    if (w && !alive_mutation(nullptr)) return real("/dev/null", m);
    FILE* f = real(p, m);
    if (f) track(fileno(f), w, strchr(m, 'a') != nullptr);
    return f;
}
int sim_mkstemp(char* name, int suffix, int flags)
{
    using Fn = int (*)(char*, int, int);
    static Fn real = next_fn<Fn>("mkostemps");
    if (!in_scratch(name)) return real(name, suffix, flags);
    size_t n = strlen(name), s = static_cast<size_t>(suffix);
    if (n < s + 6) {
        errno = EINVAL;
        return -1;
    }
    static unsigned counter = 0;
    for (int k = 0; k < 1000; k++) {
        char num[16];
        snprintf(num, sizeof num, "%06u", counter++ % 1000000);
        memcpy(name + n - s - 6, num, 6);
        int fd = sim_open(name, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
} // namespace

template <typename T>
static void as_pipe(T& st, bool is)
{
    if (!is || !S_ISREG(st.st_mode)) return;
    st.st_mode = (st.st_mode & ~static_cast<mode_t>(S_IFMT)) | S_IFIFO;
    st.st_size = 0;
    st.st_blocks = 0;
}

extern "C" {
bool sim_is_pipe(int fd)
{
    FdState* f = tracked(fd);
    return f && f->pipe;
}
ssize_t read(int fd, void* buf, size_t n)
{
    if (FdState* f = tracked(fd)) return do_read(fd, buf, n, f);
    return ::syscall(SYS_read, fd, buf, n);
}
ssize_t write(int fd, const void* buf, size_t n)
{
    if (FdState* f = tracked(fd)) return do_write(fd, static_cast<const char*>(buf), n, f);
    return ::syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* iov, int c)
{
    FdState* f = tracked(fd);
    if (!f) return ::syscall(SYS_writev, fd, iov, c);
    Outside o;
    std::string all;
    for (int i = 0; i < c; i++) all.append(static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
    return do_write(fd, all.data(), all.size(), f);
}
off_t lseek(int fd, off_t off, int wh) noexcept
{
    FdState* f = tracked(fd);
    if (f && f->pipe) {
        errno = ESPIPE;
        return -1;
    }
    off_t r = static_cast<off_t>(::syscall(SYS_lseek, fd, off, wh));
    if (f && r >= 0) f->pos = r;
    return r;
}
off64_t lseek64(int fd, off64_t off, int wh) noexcept { return lseek(fd, off, wh); }
// What is said about a file that is a pipe.
#define SIM_STAT(name, T) \
    int name(const char* p, struct T* st) noexcept \
    { \
        using Fn = int (*)(const char*, struct T*); \
        static Fn real = next_fn<Fn>(#name); \
        const int r = real(p, st); \
        if (r == 0 && in_scratch(p)) as_pipe(*st, faults().pipe); \
        return r; \
    }
#define SIM_FSTAT(name, T) \
    int name(int fd, struct T* st) noexcept \
    { \
        using Fn = int (*)(int, struct T*); \
        static Fn real = next_fn<Fn>(#name); \
        const int r = real(fd, st); \
        FdState* f = tracked(fd); \
        if (r == 0 && f) as_pipe(*st, f->pipe); \
        return r; \
    }
SIM_STAT(stat, stat)
SIM_STAT(stat64, stat64)
SIM_FSTAT(fstat, stat)
SIM_FSTAT(fstat64, stat64)
#undef SIM_STAT
#undef SIM_FSTAT
FILE* fopen(const char* p, const char* m) { return sim_fopen(p, m, cxx_caller(__builtin_return_address(0))); }
FILE* fopen64(const char* p, const char* m) { return sim_fopen(p, m, cxx_caller(__builtin_return_address(0))); }
FILE* fdopen(int fd, const char* m) noexcept
{
    using Fn = FILE* (*)(int, const char*);
    static Fn real = next_fn<Fn>("fdopen");
    if (tracked(fd) && !cxx_caller(__builtin_return_address(0))) return make_cstream(fd, m);
    return real(fd, m);
}
int fileno(FILE* f) noexcept
{
    using Fn = int (*)(FILE*);
    static Fn real = next_fn<Fn>("fileno");
    if (CStream* c = cstream(f)) return c->fd;
    return real(f);
}
int mkstemp(char* t) { return sim_mkstemp(t, 0, 0); }
int mkstemp64(char* t) { return sim_mkstemp(t, 0, 0); }
int mkostemp(char* t, int flags) { return sim_mkstemp(t, 0, flags); }
int mkstemps(char* t, int suffix) { return sim_mkstemp(t, suffix, 0); }
ssize_t pread(int fd, void* buf, size_t n, off_t off)
{
    FdState* f = tracked(fd);
    if (!f) return ::syscall(SYS_pread64, fd, buf, n, off);
    if (f->pipe) {
        errno = ESPIPE;
        return -1;
    }
    const int64_t at = f->pos;
    off_t was = static_cast<off_t>(::syscall(SYS_lseek, fd, off, SEEK_SET));
    (void)was;
    f->pos = off;
    ssize_t r = do_read(fd, buf, n, f);
    int e = errno;
    ::syscall(SYS_lseek, fd, at, SEEK_SET);
    f->pos = at;
    errno = e;
    return r;
}
ssize_t pwrite(int fd, const void* buf, size_t n, off_t off)
{
    FdState* f = tracked(fd);
    if (!f) return ::syscall(SYS_pwrite64, fd, buf, n, off);
    if (f->pipe) {
        errno = ESPIPE;
        return -1;
    }
    const int64_t at = f->pos;
    ::syscall(SYS_lseek, fd, off, SEEK_SET);
    f->pos = off;
    ssize_t r = do_write(fd, static_cast<const char*>(buf), n, f);
    int e = errno;
    ::syscall(SYS_lseek, fd, at, SEEK_SET);
    f->pos = at;
    errno = e;
    return r;
}
ssize_t pread64(int fd, void* buf, size_t n, off64_t off) { return pread(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void* buf, size_t n, off64_t off) { return pwrite(fd, buf, n, off); }
ssize_t readv(int fd, const struct iovec* iov, int c)
{
    FdState* f = tracked(fd);
    if (!f || c < 1) return ::syscall(SYS_readv, fd, iov, c);
    return do_read(fd, iov[0].iov_base, iov[0].iov_len, f);
}
static int sim_fsync(int fd, long nr)
{
    if (!tracked(fd)) return static_cast<int>(::syscall(nr, fd));
    Outside o;
    yield_point(Y_IO);
    fs.calls++;
    if (fs.crashed) return 0;
    if (faults().sync_errno) {
        faults().write_fired++;
        count(C_f_fsync_fail);
        logf("fsync fails errno=%d", faults().sync_errno);
        errno = faults().sync_errno;
        return -1;
    }
    return 0; // nothing but the process is lost in the crashes here, so there is nothing to wait for
}
int fsync(int fd) { return sim_fsync(fd, SYS_fsync); }
int fdatasync(int fd) { return sim_fsync(fd, SYS_fdatasync); }
int fclose(FILE* f)
{
    using Fn = int (*)(FILE*);
    static Fn real = next_fn<Fn>("fclose");
    int fd = fs.on ? fileno(f) : -1;
    if (CStream* c = cstream(f)) {
        c->f = nullptr;
        return real(f); // comes back for the descriptor
    }
    FdState* st = tracked(fd);
    if (!st) return real(f);
    Outside o;
    yield_point(Y_IO);
    bool w = st->writer;
    st->tracked = false;
    int r = real(f);
    fs.calls++;
    if (w && faults().close_errno) {
        faults().close_fired++;
        count(C_f_close_fail);
        logf("close fails errno=%d", faults().close_errno);
        errno = faults().close_errno;
        return EOF;
    }
    return r;
}
int close(int fd)
{
    FdState* st = tracked(fd);
    bool w = st && st->writer;
    if (st) st->tracked = false;
    int r = static_cast<int>(::syscall(SYS_close, fd));
    if (w && faults().close_errno) {
        faults().close_fired++;
        count(C_f_close_fail);
        errno = faults().close_errno;
        return -1;
    }
    return r;
}
int open(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t mode = static_cast<mode_t>(va_arg(ap, int));
    va_end(ap);
    return sim_open(p, flags, mode);
}
int open64(const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t mode = static_cast<mode_t>(va_arg(ap, int));
    va_end(ap);
    return sim_open(p, flags, mode);
}
int openat(int dir, const char* p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t mode = static_cast<mode_t>(va_arg(ap, int));
    va_end(ap);
    if (dir == AT_FDCWD || p[0] == '/') return sim_open(p, flags, mode);
    return static_cast<int>(::syscall(SYS_openat, dir, p, flags, mode));
}
int creat(const char* p, mode_t mode) { return sim_open(p, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int rename(const char* a, const char* b) noexcept
{
    race_sync();
    if (in_scratch(b)) {
        Outside o;
        yield_point(Y_IO);
        if (faults().rename_errno && !fs.crashed) {
            faults().write_fired++;
            count(C_f_rename_fail);
            logf("rename fails errno=%d", faults().rename_errno);
            errno = faults().rename_errno;
            return -1;
        }
    }
    if (in_scratch(b) && !alive_mutation(nullptr)) return 0;
    return static_cast<int>(::syscall(SYS_rename, a, b));
}
int unlink(const char* a) noexcept
{
    race_sync();
    if (in_scratch(a) && !alive_mutation(nullptr)) return 0;
    return static_cast<int>(::syscall(SYS_unlink, a));
}
int remove(const char* a) noexcept
{
    race_sync();
    if (in_scratch(a) && !alive_mutation(nullptr)) return 0;
    return static_cast<int>(::syscall(SYS_unlink, a));
}
int truncate(const char* a, off_t n) noexcept
{
    if (in_scratch(a) && !alive_mutation(nullptr)) return 0;
    return static_cast<int>(::syscall(SYS_truncate, a, n));
}
int ftruncate(int fd, off_t n) noexcept
{
    if (tracked(fd) && !alive_mutation(nullptr)) return 0;
    return static_cast<int>(::syscall(SYS_ftruncate, fd, n));
}
} // extern "C"

namespace sim {

void fs_begin()
{
    fs.read_fired = fs.write_fired = fs.open_fired = fs.close_fired = fs.crashed = 0;
    fs.calls = fs.mutating = fs.read_calls = fs.write_calls = fs.bytes_in = fs.bytes_out = 0;
    for (auto& f : g_fd) f = FdState();
    g_fsrng = Rng(fs.sched_seed);
    fs.on = true;
    scratch_dir();
}
void fs_end() { fs.on = false; }

const std::vector<std::string>& system_locales()
{
    static std::vector<std::string> found;
    static bool tried = false;
    if (tried) return found;
    tried = true;
    char exe[4096];
    const ssize_t n = ::readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n <= 0) return found;
    std::string dir(exe, static_cast<size_t>(n)); // <build>/l-<hash>/runner-<variant>
    for (int i = 0; i < 2; i++) dir.resize(dir.rfind('/') == std::string::npos ? 0 : dir.rfind('/'));
    dir += "/locale";
    setenv("LOCPATH", dir.c_str(), 1);
    for (const char* name : {"de_DE.UTF-8", "fr_CH.ISO-8859-1", "hi_IN.UTF-8", "tr_TR.ISO-8859-9"})
        if (setlocale(LC_ALL, name)) found.push_back(name);
    setlocale(LC_ALL, "C");
    return found;
}

const std::string& scratch_dir()
{
    if (g_scratch.empty() || g_scratch_owner != real_pid()) {
        const char* base = getenv("SIM_SCRATCH");
        std::string root = base ? base : (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
        char buf[256];
        snprintf(buf, sizeof buf, "%s/mshio-sim-%07d", root.c_str(), static_cast<int>(real_pid()));
        mkdir(buf, 0700);
        g_scratch = std::string(buf) + "/";
        g_scratch_owner = real_pid();
        mkdir((g_scratch + "sub").c_str(), 0700);
        if (chdir(buf) != 0) throw std::logic_error("no scratch directory");
    }
    return g_scratch;
}

void remove_dir(const std::string& dir)
{
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            std::string p = dir + "/" + e->d_name;
            if (::syscall(SYS_unlink, p.c_str()) != 0) remove_dir(p);
        }
        closedir(d);
    }
    ::syscall(SYS_rmdir, dir.c_str());
}
void remove_scratch()
{
    if (g_scratch.empty() || g_scratch_owner != real_pid()) return;
    remove_dir(g_scratch.substr(0, g_scratch.size() - 1));
    g_scratch.clear();
}

std::string raw_read(const std::string& path, bool* exists)
{
    std::string s;
    int fd = static_cast<int>(::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0));
    if (exists) *exists = fd >= 0;
    if (fd < 0) return s;
    char buf[65536];
    for (;;) {
        ssize_t r = ::syscall(SYS_read, fd, buf, sizeof buf);
        if (r <= 0) break;
        s.append(buf, static_cast<size_t>(r));
    }
    ::syscall(SYS_close, fd);
    return s;
}
void raw_write(const std::string& path, const std::string& bytes)
{
    int fd = static_cast<int>(
        ::syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600));
    if (fd < 0) throw std::logic_error("scratch write failed");
    size_t off = 0;
    while (off < bytes.size()) {
        ssize_t r = ::syscall(SYS_write, fd, bytes.data() + off, bytes.size() - off);
        if (r <= 0) throw std::logic_error("scratch write failed");
        off += static_cast<size_t>(r);
    }
    ::syscall(SYS_close, fd);
}
void raw_unlink(const std::string& path) { ::syscall(SYS_unlink, path.c_str()); }

static void list_files(const std::string& dir, std::set<std::string>& names)
{
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            const std::string p = dir + "/" + e->d_name;
            if (e->d_type == DT_DIR)
                list_files(p, names);
            else
                names.insert(p);
        }
        closedir(d);
    }
}
void list_scratch(std::set<std::string>& names)
{
    const std::string& d = scratch_dir();
    list_files(d.substr(0, d.size() - 1), names);
}
int count_fds()
{
    int n = 0;
    if (DIR* d = opendir("/proc/self/fd")) {
        while (readdir(d)) n++;
        closedir(d);
    }
    return n;
}

// ================================================================ streams
namespace {
struct SourceError : std::runtime_error
{
    SourceError() : std::runtime_error("simulated source failure") {}
};
[[noreturn]] void throw_kind(int k)
{
    switch (k) {
    case 1: throw std::ios_base::failure("simulated source failure");
    case 2: throw 42;
    default: throw SourceError();
    }
}
} // namespace

SimIn::SimIn(const std::string& d, const InPlan& p) : m_data(d), m_plan(p), m_rng(p.seed)
{
    if (p.mode == 1) count(C_f_stream_chunked);
    if (p.mode >= 2) count(C_f_stream_bytewise);
}

void SimIn::maybe_fail()
{
    if (hook && m_pos >= hook_at) {
        std::function<void()> f;
        f.swap(hook);
        f();
    }
    if (m_plan.fail_at >= 0 && static_cast<int64_t>(m_pos) >= m_plan.fail_at &&
        (m_plan.sticky || !fired)) {
        fired++;
        if (m_pos >= m_data.size()) {
            fired_at_eof++;
            count(C_f_read_throw_at_eof);
        } else
            count(C_f_read_throw);
        logf("source fails at byte %zu of %zu", m_pos, m_data.size());
        bool in = tls.in_sut;
        (void)in;
        throw_kind(m_plan.exc);
    }
}

size_t SimIn::chunk()
{
    size_t left = m_data.size() - m_pos;
    size_t n = left;
    if (m_plan.mode == 1) {
        switch (m_rng.below(4)) {
        case 0: n = 1 + m_rng.below(4); break;
        case 1: n = 1 + m_rng.below(64); break;
        case 2: n = 1 + m_rng.below(1024); break;
        default: n = 1 + m_rng.below(9000); break;
        }
    } else if (m_plan.mode == 2)
        n = 1;
    if (n > left) n = left;
    if (hook && n > hook_at - m_pos) n = hook_at - m_pos;
    if (m_plan.fail_at >= 0 && (m_plan.sticky || !fired)) {
        size_t lim = static_cast<size_t>(m_plan.fail_at) - m_pos;
        if (n > lim) n = lim;
    }
    return n;
}

SimIn::int_type SimIn::underflow()
{
    Outside o;
    yield_point(Y_IO);
    if (m_plan.mode == 3) {
        maybe_fail();
        if (m_pos >= m_data.size()) return traits_type::eof();
        return traits_type::to_int_type(m_data[m_pos]);
    }
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    maybe_fail();
    size_t n = chunk();
    if (n == 0) return traits_type::eof();
    bool back = m_pos > 0; // one character of putback, as every file buffer has
    m_buf.resize(n + 1);
    if (back) m_buf[0] = m_data[m_pos - 1];
    memcpy(m_buf.data() + 1, m_data.data() + m_pos, n);
    m_pos += n;
    given += n;
    setg(m_buf.data() + (back ? 0 : 1), m_buf.data() + 1, m_buf.data() + 1 + n);
    return traits_type::to_int_type(*gptr());
}

SimIn::int_type SimIn::uflow()
{
    if (m_plan.mode != 3) return std::streambuf::uflow();
    Outside o;
    yield_point(Y_IO);
    maybe_fail();
    if (m_pos >= m_data.size()) return traits_type::eof();
    given++;
    return traits_type::to_int_type(m_data[m_pos++]);
}

SimIn::int_type SimIn::pbackfail(int_type c)
{
    if (m_plan.mode != 3) return traits_type::eof();
    if (m_pos == 0) return traits_type::eof();
    if (c != traits_type::eof() && traits_type::to_char_type(c) != m_data[m_pos - 1])
        return traits_type::eof();
    m_pos--;
    return traits_type::to_int_type(m_data[m_pos]);
}

SimIn::pos_type SimIn::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode)
{
    if (!m_plan.seekable) return pos_type(off_type(-1));
    off_type cur = static_cast<off_type>(m_pos) - (egptr() - gptr());
    off_type base = dir == std::ios_base::beg ? 0
                    : dir == std::ios_base::cur ? cur
                                                : static_cast<off_type>(m_data.size());
    off_type np = base + off;
    if (np < 0 || np > static_cast<off_type>(m_data.size())) return pos_type(off_type(-1));
    if (np != cur) {
        m_pos = static_cast<size_t>(np);
        setg(nullptr, nullptr, nullptr);
    }
    return pos_type(np);
}
SimIn::pos_type SimIn::seekpos(pos_type p, std::ios_base::openmode w)
{
    return seekoff(off_type(p), std::ios_base::beg, w);
}

SimOut::SimOut(const OutPlan& p) : m_plan(p), m_rng(p.seed)
{
    size_t area = 0;
    if (p.mode == 1) area = 1 + m_rng.below(100);
    if (p.mode == 2) area = 1;
    if (area) {
        m_buf.resize(area);
        setp(m_buf.data(), m_buf.data() + area);
    }
    if (p.mode == 1) count(C_f_stream_chunked);
    if (p.mode >= 2) count(C_f_stream_bytewise);
}

bool SimOut::put(const char* s, size_t n)
{
    if (hook && stored.size() + n > hook_at) {
        std::function<void()> f;
        f.swap(hook);
        f();
    }
    if (m_plan.fail_at >= 0 && (m_plan.sticky || !fired)) {
        size_t room = stored.size() < static_cast<size_t>(m_plan.fail_at)
                          ? static_cast<size_t>(m_plan.fail_at) - stored.size()
                          : 0;
        if (n > room) {
            stored.append(s, room);
            fired++;
            logf("sink fails at byte %zu", stored.size());
            count(m_plan.throws ? C_f_sink_throw : C_f_sink_refuse);
            if (m_plan.throws) throw std::runtime_error("simulated sink failure");
            return false;
        }
    }
    stored.append(s, n);
    return true;
}

bool SimOut::drain()
{
    size_t n = static_cast<size_t>(pptr() - pbase());
    if (n == 0) return true;
    const char* b = pbase();
    setp(m_buf.data(), m_buf.data() + m_buf.size());
    return put(b, n);
}

SimOut::int_type SimOut::overflow(int_type c)
{
    Outside o;
    yield_point(Y_IO);
    if (!drain()) return traits_type::eof();
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    char ch = traits_type::to_char_type(c);
    if (m_buf.empty()) {
        if (!put(&ch, 1)) return traits_type::eof();
    } else {
        *pptr() = ch;
        pbump(1);
    }
    return c;
}

std::streamsize SimOut::xsputn(const char* s, std::streamsize n)
{
    if (!m_buf.empty()) return std::streambuf::xsputn(s, n);
    Outside o;
    yield_point(Y_IO);
    if (m_plan.mode == 0) {
        size_t before = stored.size();
        if (put(s, static_cast<size_t>(n))) return n;
        return static_cast<std::streamsize>(stored.size() - before);
    }
    std::streamsize done = 0;
    while (done < n) {
        size_t k = 1 + m_rng.below(16);
        if (k > static_cast<size_t>(n - done)) k = static_cast<size_t>(n - done);
        if (!put(s + done, k)) return done;
        done += static_cast<std::streamsize>(k);
    }
    return done;
}

int SimOut::sync()
{
    Outside o;
    uint64_t idx = syncs++;
    if (m_plan.sync_fail >= 0 && (static_cast<int64_t>(idx) == m_plan.sync_fail ||
                                     (m_plan.sticky && static_cast<int64_t>(idx) > m_plan.sync_fail))) {
        fired++;
        count(C_f_flush_fail);
        logf("flush %llu fails", static_cast<unsigned long long>(idx));
        if (m_plan.throws) throw std::runtime_error("simulated flush failure");
        return -1;
    }
    return drain() ? 0 : -1;
}

InPlan draw_in(Tape& t)
{
    InPlan p;
    static const int modes[] = {0, 1, 1, 1, 2, 3};
    p.mode = modes[t.draw(6)];
    if (p.mode == 1) p.seed = t.seed();
    p.seekable = t.draw(2) == 1;
    return p;
}
OutPlan draw_out(Tape& t)
{
    OutPlan p;
    p.mode = static_cast<int>(t.draw(4));
    if (p.mode == 1 || p.mode == 3) p.seed = t.seed();
    return p;
}
void draw_fs(Tape& t, FsPlan& p)
{
    p = FsPlan();
    p.shortness = static_cast<int>(t.draw(3));
    static const int e[] = {0, 0, 5, 30};
    p.eintr = e[t.draw(4)];
    if (p.shortness || p.eintr) p.sched_seed = t.seed();
}
std::string describe(const InPlan& p)
{
    return "in{mode=" + std::to_string(p.mode) + " seekable=" + std::to_string(p.seekable) +
           " fail_at=" + std::to_string(p.fail_at) + " sticky=" + std::to_string(p.sticky) +
           " exc=" + std::to_string(p.exc) + "}";
}
std::string describe(const OutPlan& p)
{
    return "out{mode=" + std::to_string(p.mode) + " fail_at=" + std::to_string(p.fail_at) +
           " sticky=" + std::to_string(p.sticky) + " throws=" + std::to_string(p.throws) +
           " sync_fail=" + std::to_string(p.sync_fail) + "}";
}

} // namespace sim
