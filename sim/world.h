// The simulated world around the library: memory, system calls, streams, threads, step clock.
#pragma once
#include "tape.h"

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <istream>
#include <memory>
#include <ostream>
#include <streambuf>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- counters (shared with the parent)
#define SIM_COUNTERS(X) \
    X(runs) X(sut_calls) X(sut_threw) X(sut_returned) X(steps_k) \
    X(f_stream_chunked) X(f_stream_bytewise) X(f_read_short) X(f_read_eintr) X(f_read_eio) X(f_read_eio_at_eof) \
    X(f_read_throw) X(f_read_throw_at_eof) X(f_open_fail) X(f_pipe) X(f_read_directory) X(f_stream_not_open) \
    X(f_write_short) X(f_write_eintr) X(f_write_enospc) X(f_write_eio) X(f_sink_refuse) X(f_sink_throw) \
    X(f_flush_fail) X(f_close_fail) X(f_fsync_fail) X(f_rename_fail) X(f_crash_in_call) X(f_crash_after_return) X(f_torn_write) \
    X(f_bad_number) X(f_bad_end_tag) X(f_short_section) X(f_truncate) X(f_zero_tail) X(f_bitflip) X(f_overwrite) X(f_delete_range) X(f_dup_range) X(f_swap_range) \
    X(f_field_damage) X(f_alloc_fail) X(f_alloc_fail_persistent) X(f_alloc_fail_size) X(f_mem_budget) \
    X(f_heap_pattern) X(f_slow_medium) X(f_clock_jump) X(f_clock_base) X(f_locale_global) X(f_locale_stream) X(f_locale_system) X(f_locale_c) X(f_stream_flags) X(f_exception_mask) \
    X(f_preempt) X(f_preempt_step) X(f_preempt_io) X(f_preempt_alloc) X(f_preempt_mem) X(f_mutex_block) \
    X(f_unsupported) X(f_entry_failed_stream) \
    X(p_ascii41) X(p_bin41) X(p_ascii22) X(p_bin22) X(p_nano) X(p_foreign_doc) X(p_library_doc) X(p_unknown_section) \
    X(p_parametric) X(p_empty_block) X(p_sparse_tags) X(p_wide_tags) X(p_nonfinite) X(p_big_array) X(p_vast_array) X(p_giant_array) X(p_many_views) X(p_long_dimension) X(p_aligned) X(p_file_name) X(p_field_width) \
    X(p_quoted_hard) X(p_unrepresentable) X(p_entities) X(p_phys) X(p_data) X(p_file_medium) X(p_stream_medium) \
    X(p_cut_boundary) X(p_cut_inside) X(p_corrupt_returned) X(p_corrupt_threw) X(p_fault_not_reached) \
    X(p_cold_start) X(p_shared_spec) X(p_shared_file) X(p_converted) X(p_sibling) X(p_nested) X(p_many_repetitions) X(p_two_tag) X(p_validated) X(p_oom_recovered) X(p_lead) X(slept_us) X(clock_reads) X(simulated_s) X(race_accesses)

enum Ctr {
#define X(n) C_##n,
    SIM_COUNTERS(X)
#undef X
    C_count
};
extern const char* const kCtrNames[];

struct RunRec
{
    uint32_t state; // 0 not run, 1 started, 2 ok, 3 violation
    uint32_t pad;
    uint64_t loghash;
    uint64_t sig;
    uint64_t steps;
    char cls[64];
    char msg[480];
};
constexpr size_t kCovBytes = 1 << 20;
struct Shared
{
    uint64_t ctr[C_count];
    uint64_t maxsteps;
    uint8_t cov[kCovBytes];
};
extern Shared* shm;
inline void count(Ctr c, uint64_t n = 1) { __atomic_fetch_add(&shm->ctr[c], n, __ATOMIC_RELAXED); }

// ---------------------------------------------------------------- violations and the event log
struct Violation
{
    std::string cls, msg;
};
[[noreturn]] void fail(const std::string& cls, const std::string& msg);

struct EventLog
{
    uint64_t hash = 1469598103934665603ull;
    uint64_t* mirror_hash = nullptr; // survives a crash of the process
    char* text = nullptr; // if set, the lines are kept here
    size_t text_cap = 0, text_len = 0;
    uint64_t n = 0;
    void add(const std::string& s);
};
extern EventLog* elog;
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- per-thread state
struct FsPlan;
struct Tls
{
    bool in_sut = false;
    int nopreempt = 0;
    int tid = -1; // simulated thread, -1 outside the scheduler
    int64_t fuel = 1 << 16;
    int64_t slice = 1 << 16;
    // allocation plan
    int64_t alloc_index = 0;
    int64_t fail_at = -1; // index of the failing allocation
    bool fail_persistent = false;
    size_t fail_size = 0; // fail every allocation of at least this size
    int64_t budget_live = 0, budget_max = 0; // bytes; 0: unlimited
    uint64_t fired = 0;
    uint64_t budget_fired = 0;
    // what the current call costs
    uint64_t alloc_bytes = 0; // requested from the heap, all in all
    int64_t peak_live = 0; // most bytes held at one time
    uint64_t moved = 0; // bytes given to memcpy and its kind (optimised variants only)
    uintptr_t stack_low = ~uintptr_t(0); // lowest frame seen
    uint64_t idle_wakes = 0; // from waiting for conditions
    FsPlan* plan = nullptr; // file faults of this thread only
};
extern thread_local Tls tls;
extern unsigned char g_fill; // pattern for fresh memory
extern std::atomic<int64_t> g_live_blocks;
extern std::atomic<int64_t> g_live_bytes; // operator new
extern std::atomic<int64_t> g_maps; // mappings made by the library itself
extern std::atomic<int64_t> g_raw_blocks; // optimised variants only

struct Outside // harness code called from inside the library
{
    bool saved;
    Outside() : saved(tls.in_sut) { tls.in_sut = false; }
    ~Outside() { tls.in_sut = saved; }
    Outside(const Outside&) = delete;
};

// Steps: basic blocks executed by the library
extern uint64_t g_steps; // in the current run
extern uint64_t g_step_limit;
void reset_steps(uint64_t limit);
extern double g_cpu_limit; // CPU seconds one run may take
constexpr int64_t kMachineMemory = int64_t(2) << 30;
extern int64_t g_machine_memory; // of the simulated machine
enum { kExitHang = 77, kExitStuck = 78, kExitAsan = 99, kExitDeadlock = 79, kExitTerminate = 80 };

// ---------------------------------------------------------------- scheduler
enum YieldKind { Y_STEP, Y_IO, Y_ALLOC, Y_MUTEX, Y_MEM };
void run_threads(Tape& tape, const std::vector<std::function<void()>>& fns, uint64_t* interleaving);
void yield_point(YieldKind k);
void set_clock(Tape& t); // the clocks and the random device the library sees
bool sched_active();
// Data races, in the builds that report memory accesses (see world.cpp).
void race_watch(const void* p, size_t n); // before run_threads: memory to watch besides static data
void race_sync();
std::string race_end(); // what was found, or empty

// ---------------------------------------------------------------- file system
struct FsPlan
{
    bool on = false;
    uint64_t sched_seed = 0; // short transfers and EINTR when shortness > 0
    int shortness = 0; // 0 none, 1 sometimes, 2 heavy
    int eintr = 0; // percent
    int64_t read_fail_at = -1;
    bool read_sticky = true;
    int read_errno = 5;
    int64_t write_fail_at = -1;
    bool write_sticky = true;
    int write_errno = 28;
    int open_errno = 0;
    bool read_only = false; // the file may be read only
    bool pipe = false; // the file cannot seek and has no size, as a named pipe
    int close_errno = 0, sync_errno = 0, rename_errno = 0;
    int64_t crash_at = -1; // mutating call after which the process is dead
    bool crash_torn = false; // the write at the crash point is partly done
    // observations
    uint64_t read_fired = 0, write_fired = 0, open_fired = 0, close_fired = 0, crashed = 0;
    uint64_t calls = 0, mutating = 0, read_calls = 0, write_calls = 0, bytes_in = 0, bytes_out = 0;
};
extern FsPlan fs;
void fs_begin(); // clear observations, switch interposition on
void fs_end();
const std::string& scratch_dir(); // created on first use, removed at exit of the owner
void remove_scratch();
void remove_dir(const std::string& dir); // with everything in it
std::string raw_read(const std::string& path, bool* exists = nullptr);
void raw_write(const std::string& path, const std::string& bytes);
void raw_unlink(const std::string& path);
int count_fds();
void list_scratch(std::set<std::string>& names); // all files in the scratch directory
const std::vector<std::string>& system_locales(); // compiled by tools/build.py; empty where that is impossible

// ---------------------------------------------------------------- streams
struct InPlan
{
    int mode = 0; // 0 all at once, 1 random chunks, 2 bytewise buffer, 3 unbuffered
    uint64_t seed = 0;
    bool seekable = false;
    int64_t fail_at = -1; // byte offset at which the source reports an error
    bool sticky = true;
    int exc = 0; // which exception
};
class SimIn : public std::streambuf
{
public:
    SimIn(const std::string& d, const InPlan& p);
    uint64_t fired = 0;
    uint64_t fired_at_eof = 0;
    size_t delivered() const { return m_pos; }
    uint64_t given = 0; // bytes handed out, again and again if asked for again
    std::function<void()> hook; // called once, before byte hook_at is handed out
    size_t hook_at = 0;

protected:
    int_type underflow() override;
    int_type uflow() override;
    int_type pbackfail(int_type c) override;
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override;
    pos_type seekpos(pos_type p, std::ios_base::openmode which) override;

private:
    void maybe_fail();
    size_t chunk();
    const std::string& m_data;
    InPlan m_plan;
    size_t m_pos = 0; // bytes taken from the source
    std::vector<char> m_buf;
    Rng m_rng;
};

struct OutPlan
{
    int mode = 0; // 0 accept everything, 1 random put area, 2 one-byte put area, 3 unbuffered
    uint64_t seed = 0;
    int64_t fail_at = -1;
    bool sticky = true;
    bool throws = false;
    int64_t sync_fail = -1; // index of the flush that fails
};
class SimOut : public std::streambuf
{
public:
    explicit SimOut(const OutPlan& p);
    std::string stored; // what reached the sink
    uint64_t fired = 0;
    uint64_t syncs = 0;
    std::function<void()> hook; // called once, before the first bytes beyond hook_at are taken
    size_t hook_at = 0;

protected:
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
    int sync() override;

private:
    bool put(const char* s, size_t n); // false: refused (a prefix may have been taken)
    bool drain();
    OutPlan m_plan;
    std::vector<char> m_buf;
    Rng m_rng;
};

std::string describe(const InPlan&);
std::string describe(const OutPlan&);
InPlan draw_in(Tape& t);
OutPlan draw_out(Tape& t);
void draw_fs(Tape& t, FsPlan& p);

} // namespace sim
