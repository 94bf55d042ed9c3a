// The runner: seeded batches in parallel processes, replay, minimisation.
#include "model.h"
#include "ops.h"
#include "props.h"
#include "world.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

#ifndef SIM_VARIANT
#define SIM_VARIANT "unknown"
#endif

extern "C" {
const char* __asan_default_options();
const char* __asan_default_options()
{
    return "exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:detect_leaks=0:malloc_context_size=8:"
           "handle_abort=0:allocator_release_to_os_interval_ms=-1:quarantine_size_mb=8:print_legend=0:max_malloc_fill_size=0";
}
const char* __ubsan_default_options();
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }
}

namespace {

double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

void* shared_map(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        _exit(3);
    }
    return p;
}

struct NullBuf : std::streambuf
{
    int_type overflow(int_type c) override { return traits_type::not_eof(c); }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
} g_null;

enum { R_none, R_started, R_ok, R_violation, R_harness_error };

void copy_to(char* dst, size_t cap, const std::string& s)
{
    size_t n = std::min(cap - 1, s.size());
    memcpy(dst, s.data(), n);
    dst[n] = 0;
    for (size_t i = 0; i < n; i++)
        if (static_cast<unsigned char>(dst[i]) < 32) dst[i] = ' ';
}

constexpr size_t kSample = 700;

double cpu_seconds()
{
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
double g_run_cpu = 0;
time_t g_run_wall = 0;
void watch_run()
{
    g_run_cpu = cpu_seconds();
    g_run_wall = time(nullptr);
    g_cpu_limit = 40;
    g_machine_memory = kMachineMemory;
    alarm(5);
}

void one_run(const props::Prop& p, Tape& tape, RunRec* rec, char* sample, EventLog& log)
{
    watch_run();
    rec->state = R_started;
    log.mirror_hash = &rec->loghash;
    elog = &log;
    props::Ctx ctx(tape);
    try {
        p.run(ctx);
        rec->state = R_ok;
    } catch (const Violation& v) {
        copy_to(rec->cls, sizeof rec->cls, v.cls);
        copy_to(rec->msg, sizeof rec->msg, v.msg);
        rec->state = R_violation;
    } catch (const std::exception& e) {
        copy_to(rec->cls, sizeof rec->cls, "harness");
        copy_to(rec->msg, sizeof rec->msg, std::string("the harness failed: ") + e.what() + " | " + ctx.sample);
        rec->state = R_harness_error;
    }
    elog = nullptr;
    rec->loghash = log.hash;
    rec->sig = ctx.sig;
    if (sample) copy_to(sample, kSample, ctx.sample);
    count(C_runs);
}

void on_alarm(int)
{
    Outside o; // it may interrupt the library, whose clocks are simulated
    // Judged by the time the process has used, so that a busy machine makes no difference: a run that uses its share up
    // is stuck in a loop the step counter does not see, one that hardly uses any waits for something that never comes.
    if (cpu_seconds() - g_run_cpu < g_cpu_limit && time(nullptr) - g_run_wall < 3600) {
        if (time(nullptr) - g_run_wall < 60 || cpu_seconds() - g_run_cpu > 2) {
            alarm(5);
            return;
        }
    }
    const char m[] = "SIM: stuck, no progress in wall-clock time\n";
    ssize_t r = syscall(SYS_write, 2, m, sizeof m - 1);
    (void)r;
    _exit(kExitStuck);
}
void on_terminate()
{
    const char m[] = "SIM: std::terminate called\n";
    ssize_t r = syscall(SYS_write, 2, m, sizeof m - 1);
    (void)r;
    _exit(kExitTerminate);
}

void child_setup(int errfd)
{
    dup2(errfd, 2);
    std::set_terminate(on_terminate);
    std::cerr.rdbuf(&g_null);
    std::cout.rdbuf(&g_null);
    signal(SIGALRM, on_alarm);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

int memory_file()
{
    int fd = static_cast<int>(syscall(SYS_memfd_create, "err", 0));
    if (fd < 0) {
        char name[] = "/tmp/mshio-sim-err-XXXXXX";
        fd = mkstemp(name);
        unlink(name);
    }
    return fd;
}
std::string slurp_fd(int fd)
{
    std::string s;
    char b[4096];
    lseek(fd, 0, SEEK_SET);
    ssize_t r;
    while ((r = ::read(fd, b, sizeof b)) > 0 && s.size() < 60000) s.append(b, static_cast<size_t>(r));
    return s;
}

void remove_dir_of(pid_t pid)
{
    // A crashed child leaves its scratch directory behind.
    for (const char* root : {"/dev/shm", "/tmp"}) {
        char name[64];
        snprintf(name, sizeof name, "%s/mshio-sim-%07d", root, static_cast<int>(pid));
        const std::string d = name;
        if (access(d.c_str(), F_OK) != 0) continue;
        sim::remove_dir(d);
    }
}

// The class and message of a run that ended its process.
void classify_death(int status, const std::string& err, RunRec* rec)
{
    std::string cls, msg;
    auto line_with = [&](const char* k) {
        size_t p = err.find(k);
        if (p == std::string::npos) return std::string();
        size_t b = err.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        size_t e = err.find('\n', p);
        return err.substr(b, e == std::string::npos ? std::string::npos : e - b);
    };
    auto strip = [](std::string s) { // process ids and addresses differ from run to run
        size_t p = s.find("ERROR:");
        if (p != std::string::npos) s = s.substr(p);
        std::string o;
        for (size_t i = 0; i < s.size();) {
            if (s.compare(i, 2, "0x") == 0) {
                o += "0x..";
                i += 2;
                while (i < s.size() && isxdigit(static_cast<unsigned char>(s[i]))) i++;
            } else
                o += s[i++];
        }
        return o;
    };
    if (WIFEXITED(status)) {
        int c = WEXITSTATUS(status);
        if (c == kExitHang) cls = "no-termination", msg = "the call did not finish within the step limit";
        if (c == kExitStuck) cls = "no-termination", msg = "the call made no progress";
        if (c == kExitDeadlock) cls = "deadlock", msg = "the threads block each other";
        if (c == kExitTerminate) cls = "terminate", msg = "std::terminate was called";
        if (c == kExitAsan) {
            std::string l = line_with("AddressSanitizer:");
            if (!l.empty()) {
                size_t p = l.find("AddressSanitizer: ");
                std::string kind = l.substr(p + 18);
                kind = kind.substr(0, kind.find(' '));
                cls = "memory-" + kind;
                msg = strip(l);
            } else {
                l = line_with("runtime error:");
                cls = "undefined-behaviour";
                msg = strip(l);
            }
            size_t f = err.find("/src/");
            if (f != std::string::npos) {
                size_t e = err.find_first_of("\n )", f);
                msg += " at " + err.substr(f + 1, std::min<size_t>(e - f - 1, 80));
            }
        }
        if (cls.empty()) cls = "exit", msg = "the process exited with status " + std::to_string(c);
    } else {
        int s = WTERMSIG(status);
        cls = s == SIGABRT ? "abort" : s == SIGSEGV || s == SIGBUS ? "segfault" : "signal-" + std::to_string(s);
        msg = std::string("the process was killed by ") + strsignal(s);
        std::string l = line_with("Assertion");
        if (!l.empty()) msg += ": " + l;
        l = line_with("free()");
        if (!l.empty()) msg += ": " + l;
        l = line_with("terminate called");
        if (!l.empty()) msg += ": " + l;
    }
    copy_to(rec->cls, sizeof rec->cls, cls);
    copy_to(rec->msg, sizeof rec->msg, msg);
    rec->state = R_violation;
}

struct Args
{
    std::string mode, prop, out, known, replay_dir, file;
    uint64_t seed = 1, start = 0, count = 100;
    int jobs = 8;
    double max_wall = 600;
    double shrink_wall = 90;
    bool print_hashes = false;
};

uint64_t run_seed(const Args& a, uint64_t idx) { return mix(mix(a.seed, fnv(a.prop)), idx + 1); }

struct Known
{
    std::string cls, substr, text;
};
std::vector<Known> load_known(const std::string& file, const std::string& prop)
{
    // lines: known: property=<id> class=<class> match="<substring>" <what fails>
    std::vector<Known> v;
    if (file.empty()) return v;
    std::ifstream f(file);
    std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 16, "known: property=") != 0) continue;
        std::istringstream is(l.substr(16));
        std::string p;
        is >> p;
        if (p != prop) continue;
        Known k;
        size_t c = l.find("class="), m = l.find("match=\"");
        if (c == std::string::npos || m == std::string::npos) continue;
        k.cls = l.substr(c + 6, l.find(' ', c) - c - 6);
        size_t e = l.find('"', m + 7);
        k.substr = l.substr(m + 7, e - m - 7);
        k.text = l.substr(e + 1);
        v.push_back(k);
    }
    return v;
}

// ------------------------------------------------------------------------------------------------ one process, given tapes
struct Outcome
{
    RunRec rec{};
    std::string log, sample;
    std::vector<uint64_t> tape; // choices of the last run
    std::string err;
    size_t ran = 0;
};
struct Cell
{
    RunRec rec;
    uint64_t ran;
    char sample[kSample];
    char text[1 << 20];
};
Cell* g_cell;
TapeMirror* g_mirror;

// Processes that run given tapes are forked from one that has done nothing since it started (the zygote), so that
// what lies in their memory is the same each time, and code that reads memory it does not own behaves alike, too.
struct Request
{
    int prop, keep_log;
    uint64_t n, words;
    static constexpr uint64_t kCap = 16 << 20;
    uint64_t v[kCap]; // per tape: fresh?, then the seed, or the length and the values
};
Request* g_req;
int g_ask = -1, g_answer = -1, g_err = -1;
int g_zygote_pid = 0;

void run_request()
{
    child_setup(g_err);
    const props::Prop& p = props::kProps[g_req->prop];
    const uint64_t* v = g_req->v;
    for (size_t i = 0; i < g_req->n; i++) {
        const bool fresh = *v++ != 0;
        const uint64_t arg = *v++;
        Tape tape = fresh ? Tape::fresh(arg) : Tape::from(std::vector<uint64_t>(v, v + arg));
        if (!fresh) v += arg;
        EventLog log;
        const bool last = i + 1 == g_req->n;
        if (g_req->keep_log) {
            log.text = g_cell->text;
            log.text_cap = sizeof g_cell->text;
        }
        g_cell->text[0] = 0;
        g_cell->rec = RunRec();
        g_mirror->n = 0;
        tape_mirror = g_mirror;
        g_cell->ran = i + 1;
        one_run(p, tape, &g_cell->rec, g_cell->sample, log);
        tape_mirror = nullptr;
        if (!last && g_cell->rec.state >= R_violation) break;
    }
    remove_scratch();
    _exit(0);
}

void start_zygote()
{
    g_cell = static_cast<Cell*>(shared_map(sizeof(Cell)));
    g_mirror = static_cast<TapeMirror*>(shared_map(sizeof(TapeMirror)));
    g_req = static_cast<Request*>(shared_map(sizeof(Request)));
    int ask[2], answer[2];
    g_err = memory_file();
    if (pipe2(ask, O_CLOEXEC) || pipe2(answer, O_CLOEXEC)) {
        perror("pipe");
        _exit(3);
    }
    const pid_t parent = getpid();
    g_zygote_pid = fork();
    if (g_zygote_pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (getppid() != parent) _exit(0);
        close(ask[1]), close(answer[0]);
        char b;
        while (::read(ask[0], &b, 1) == 1) {
            int a[2] = {0, 0};
            a[0] = fork();
            if (a[0] == 0) run_request();
            while (waitpid(a[0], &a[1], 0) < 0 && errno == EINTR) {
            }
            if (::write(answer[1], a, sizeof a) != sizeof a) break;
        }
        _exit(0);
    }
    close(ask[0]), close(answer[1]);
    g_ask = ask[1], g_answer = answer[0];
}

// Runs the given tapes one after the other in a fresh process; the last one is the one reported, unless an
// earlier one already ends in a violation.
Outcome in_child(const props::Prop& p, const std::vector<Tape>& tapes, bool keep_log)
{
    g_cell->rec = RunRec();
    g_cell->ran = 0;
    g_cell->text[0] = 0;
    g_cell->sample[0] = 0;
    g_mirror->n = g_mirror->overflow = 0;
    g_req->prop = static_cast<int>(&p - props::kProps);
    g_req->keep_log = keep_log;
    g_req->n = tapes.size();
    uint64_t w = 0;
    Outcome o;
    for (const auto& t : tapes) {
        if (w + 2 + t.v.size() > Request::kCap) {
            fprintf(stderr, "the tapes of %zu runs are too long to replay\n", tapes.size());
            return o;
        }
        g_req->v[w++] = !t.replay;
        g_req->v[w++] = t.replay ? t.v.size() : t.seed_of;
        if (t.replay)
            for (uint64_t x : t.v) g_req->v[w++] = x;
    }
    if (ftruncate(g_err, 0) != 0 || lseek(g_err, 0, SEEK_SET) != 0) perror("err");
    int a[2] = {0, 0};
    char b = 'r';
    if (::write(g_ask, &b, 1) != 1 || ::read(g_answer, a, sizeof a) != sizeof a) {
        fprintf(stderr, "the process that starts replays is gone\n");
        _exit(3);
    }
    o.err = slurp_fd(g_err);
    if (g_cell->rec.state <= R_started) {
        classify_death(a[1], o.err, &g_cell->rec);
        remove_dir_of(a[0]);
    }
    o.rec = g_cell->rec;
    o.log = g_cell->text;
    o.sample = g_cell->sample;
    o.ran = g_cell->ran;
    o.tape.assign(g_mirror->v, g_mirror->v + g_mirror->n);
    return o;
}

using Tapes = std::vector<std::vector<uint64_t>>;
Outcome replay_tapes(const props::Prop& p, const Tapes& ts, bool keep_log)
{
    std::vector<Tape> t;
    for (const auto& v : ts) t.push_back(Tape::from(v));
    return in_child(p, t, keep_log);
}

struct Shrinker
{
    const props::Prop& p;
    std::string cls;
    double deadline;
    int left = 4000;
    int tried = 0;
    bool fails(const Tapes& t)
    {
        if (left <= 0 || now() > deadline) return false;
        left--, tried++;
        Outcome o = replay_tapes(p, t, false);
        return o.rec.state == R_violation && cls == o.rec.cls && o.ran == t.size();
    }
    void shrink(Tapes& t)
    {
        while (t.size() > 1) { // whole earlier runs first
            bool any = false;
            for (size_t n = t.size() - 1; n >= 1; n /= 2)
                for (size_t i = 0; i + n <= t.size() - 1;) {
                    Tapes c = t;
                    c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + n));
                    if (fails(c))
                        t = c, any = true;
                    else
                        i += n;
                }
            if (!any) break;
        }
        for (int pass = 0; pass < 6; pass++) {
            bool any = false;
            for (size_t k = t.size(); k-- > 0;) any = shrink_one(t, k) || any;
            if (!any || left <= 0 || now() > deadline) break;
        }
        for (auto& v : t)
            while (!v.empty() && v.back() == 0) v.pop_back();
    }
    bool shrink_one(Tapes& t, size_t k)
    {
        bool any = false;
        auto attempt = [&](std::vector<uint64_t> v) {
            if (v == t[k]) return false;
            Tapes c = t;
            c[k] = std::move(v);
            if (!fails(c)) return false;
            t = c;
            return any = true;
        };
        // cut the tail
        for (size_t keep = 0; keep < t[k].size(); keep = keep * 2 + 1) {
            auto v = t[k];
            v.resize(keep);
            if (attempt(v)) break;
        }
        for (size_t n = std::max<size_t>(1, t[k].size() / 2); n >= 1; n /= 2) {
            for (size_t i = 0; i < t[k].size();) {
                auto v = t[k];
                size_t e = std::min(v.size(), i + n);
                v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(e));
                if (attempt(v)) continue;
                v = t[k];
                bool zero = true;
                for (size_t j = i; j < e; j++) zero = zero && v[j] == 0, v[j] = 0;
                if (!zero) attempt(v);
                i += n;
            }
            if (n == 1) break;
        }
        for (size_t i = 0; i < t[k].size(); i++) {
            for (uint64_t to : {t[k][i] / 2, t[k][i] - 1}) {
                while (t[k][i] > 0) {
                    auto v = t[k];
                    if (to >= v[i]) break;
                    v[i] = to;
                    if (!attempt(v)) break;
                    to = t[k][i] / 2;
                }
            }
        }
        return any;
    }
};

bool write_replay(const std::string& path, const Args& a, const Outcome& o, const Tapes& ts, uint64_t idx, int tried)
{
    std::ofstream f(path);
    f << "MSHIO-SIM-REPLAY 1\n";
    f << "property " << a.prop << "\nvariant " << SIM_VARIANT << "\nclass " << o.rec.cls << "\nmessage " << o.rec.msg << "\nseed " << a.seed << "\nrun " << idx
      << "\nloghash " << std::hex << o.rec.loghash << std::dec << "\nminimised " << tried << " candidates\n";
    for (const auto& t : ts) {
        f << "tape " << t.size();
        for (uint64_t v : t) f << ' ' << v;
        f << "\n";
    }
    f << "# case: " << o.sample << "\n# events of the (last) run:\n";
    std::istringstream is(o.log);
    std::string l;
    while (std::getline(is, l)) f << "# " << l << "\n";
    if (!o.err.empty()) {
        f << "# diagnostics:\n";
        std::istringstream es(o.err.substr(0, 6000));
        while (std::getline(es, l)) f << "# " << l << "\n";
    }
    return static_cast<bool>(f);
}

std::string esc(const std::string& s)
{
    std::string o;
    for (char ch : s) {
        if (ch == '"' || ch == '\\') o += '\\';
        if (static_cast<unsigned char>(ch) < 32 || static_cast<unsigned char>(ch) >= 127)
            o += '?';
        else
            o += ch;
    }
    return o;
}

std::string replay_path(const Args& a, uint64_t idx)
{
    return a.replay_dir + "/" + a.prop + "-" + SIM_VARIANT + "-seed" + std::to_string(a.seed) + "-run" + std::to_string(idx) + ".replay";
}
std::string violation_json(uint64_t idx, const std::string& cls, const Outcome& x, const std::string& first, const std::string& path, size_t before, size_t after)
{
    return "{\"run\": " + std::to_string(idx) + ", \"class\": \"" + esc(cls) + "\", \"message\": \"" + esc(x.rec.msg) + "\", \"first_message\": \"" + esc(first) +
           "\", \"replay\": \"" + esc(path) + "\", \"choices_before\": " + std::to_string(before) + ", \"choices_after\": " + std::to_string(after) +
           ", \"case\": \"" + esc(x.sample) + "\"}";
}

// ------------------------------------------------------------------------------------------------ batch
struct Range
{
    uint64_t first, next, end; // indices relative to the batch
};

int batch(const Args& a, const props::Prop& p)
{
    const double t0 = now();
    RunRec* recs = static_cast<RunRec*>(shared_map(sizeof(RunRec) * (a.count + 1)));
    constexpr uint64_t kSamples = 5;
    char* samples = static_cast<char*>(shared_map(kSample * kSamples));
    std::vector<Known> known = load_known(a.known, a.prop);
    std::vector<Range> todo;
    const uint64_t E = static_cast<uint64_t>(p.epoch);
    for (uint64_t i = 0; i < a.count; i += E) todo.push_back({i, i, std::min(a.count, i + E)});
    std::reverse(todo.begin(), todo.end());
    struct Slot
    {
        pid_t pid = 0;
        Range r{};
        int fd = -1;
    };
    std::vector<Slot> slots(static_cast<size_t>(a.jobs));
    uint64_t stop_at = ~0ull; // first unlisted violation so far
    std::map<uint64_t, Range> vio_range;
    std::map<std::string, uint64_t> known_hits;
    bool harness_error = false, out_of_time = false;
    uint64_t processes = 0;
    auto is_known = [&](const RunRec& r) -> const Known* {
        for (const auto& k : known)
            if (k.cls == r.cls && strstr(r.msg, k.substr.c_str())) return &k;
        return nullptr;
    };
    auto launch = [&](Slot& s, Range r) {
        s.r = r;
        s.fd = memory_file();
        processes++;
        fflush(nullptr);
        s.pid = fork();
        if (s.pid == 0) {
            child_setup(s.fd);
            for (uint64_t i = r.next; i < r.end; i++) {
                Tape t = Tape::fresh(run_seed(a, a.start + i));
                EventLog log;
                char* smp = nullptr;
                for (uint64_t k = 0; k < kSamples; k++)
                    if (i == k * (a.count / kSamples)) smp = samples + kSample * k;
                if (i == r.next) count(C_p_cold_start);
                one_run(p, t, recs + i, smp, log);
                if (recs[i].state >= R_violation) break;
            }
            remove_scratch();
            _exit(0);
        }
    };
    size_t running = 0;
    for (;;) {
        for (auto& s : slots) {
            if (s.pid || todo.empty() || harness_error) continue;
            if (todo.back().next > stop_at) {
                todo.clear();
                break;
            }
            if (now() - t0 > a.max_wall) {
                out_of_time = true;
                todo.clear();
                break;
            }
            Range r = todo.back();
            todo.pop_back();
            launch(s, r);
            running++;
        }
        if (running == 0) break;
        int st = 0;
        pid_t pid = waitpid(-1, &st, 0);
        if (pid < 0) {
            if (errno == EINTR) continue;
            break;
        }
        for (auto& s : slots) {
            if (s.pid != pid) continue;
            std::string err = slurp_fd(s.fd);
            close(s.fd);
            running--;
            s.pid = 0;
            uint64_t i = s.r.next;
            while (i < s.r.end && recs[i].state == R_ok) i++;
            if (i < s.r.end) {
                if (recs[i].state == R_none && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
                if (recs[i].state <= R_started) {
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                        fprintf(stderr, "worker was killed (out of memory?)\n");
                        harness_error = true;
                        break;
                    }
                    classify_death(st, err, recs + i);
                    remove_dir_of(pid);
                }
                if (recs[i].state == R_harness_error) {
                    fprintf(stderr, "run %llu: %s\n", static_cast<unsigned long long>(a.start + i), recs[i].msg);
                    harness_error = true;
                    break;
                }
                const Known* k = is_known(recs[i]);
                if (k) {
                    known_hits[k->text]++;
                } else {
                    stop_at = std::min(stop_at, i);
                    vio_range[i] = s.r;
                }
                if (i + 1 < s.r.end && k) {
                    todo.push_back({i + 1, i + 1, s.r.end});
                }
            }
            break;
        }
    }
    const double t_search = now() - t0;
    uint64_t done = 0, steps = 0;
    uint64_t allhash = 0;
    std::set<uint64_t> sigs;
    for (uint64_t i = 0; i < a.count; i++) {
        if (recs[i].state == R_none) continue;
        done++;
        sigs.insert(recs[i].sig);
        allhash = mix(allhash, recs[i].loghash);
        steps += recs[i].steps;
        if (a.print_hashes)
            printf("run %llu state %u log %016llx sig %016llx\n", static_cast<unsigned long long>(a.start + i), recs[i].state,
                static_cast<unsigned long long>(recs[i].loghash), static_cast<unsigned long long>(recs[i].sig));
    }
    (void)steps;
    uint64_t blocks = 0;
    for (size_t i = 0; i < kCovBytes; i++) blocks += shm->cov[i];

    // ---- the first violation: reproduce in a fresh process, minimise, write the replay file
    std::string vjson = "null";
    int rc = harness_error ? 3 : 0;
    if (!harness_error && stop_at != ~0ull) {
        const uint64_t idx = a.start + stop_at;
        std::string cls = recs[stop_at].cls;
        Tapes ts;
        Outcome o = in_child(p, {Tape::fresh(run_seed(a, idx))}, false);
        if (o.rec.state == R_violation && cls == o.rec.cls)
            ts = {o.tape};
        else {
            // It needs what came before it in its process.
            Range r = vio_range[stop_at];
            Tapes all;
            for (uint64_t i = r.next; i <= stop_at; i++) all.push_back(in_child(p, {Tape::fresh(run_seed(a, a.start + i))}, false).tape);
            Outcome e = replay_tapes(p, all, false);
            if (e.rec.state == R_violation && cls == e.rec.cls && e.ran == all.size())
                ts = all;
            else if (o.rec.state == R_violation) // what memory corruption does may vary
                ts = {o.tape}, cls = o.rec.cls;
            else if (e.rec.state == R_violation) {
                all.resize(e.ran);
                ts = all, cls = e.rec.cls;
            } else {
                // Seen, but it depends on more than the simulator decides (the contents of memory nobody wrote, say).
                fprintf(stderr, "violation at run %llu (%s: %s) does not reproduce\n", static_cast<unsigned long long>(idx), cls.c_str(), recs[stop_at].msg);
                e.rec = recs[stop_at];
                e.sample = "not reproduced in a fresh process; the replay file holds everything the process had executed";
                if (cls == "no-termination") e.rec.state = R_none; // the machine may have been busy with other things
                const std::string path = replay_path(a, idx);
                size_t choices = 0;
                for (auto& v : all) choices += v.size();
                rc = e.rec.state == R_violation && write_replay(path, a, e, all, idx, 0) ? 1 : 4;
                if (rc == 1) vjson = violation_json(idx, cls, e, recs[stop_at].msg, path, choices, choices);
            }
        }
        if (!ts.empty()) {
            Shrinker sh{p, cls, now() + a.shrink_wall};
            Tapes orig = ts;
            size_t before = 0, after = 0;
            for (auto& v : ts) before += v.size();
            sh.shrink(ts);
            for (auto& v : ts) after += v.size();
            Outcome x = replay_tapes(p, ts, true), y = replay_tapes(p, ts, true);
            if (x.rec.state != R_violation || cls != x.rec.cls || y.rec.state != R_violation || cls != y.rec.cls) {
                fprintf(stderr, "the minimised run does not reproduce (%s/%s)\n", x.rec.cls, y.rec.cls);
                rc = 4;
            } else {
                // Only code that reads memory nobody gave it can tell the two apart.
                if (x.rec.loghash != y.rec.loghash) fprintf(stderr, "note: the minimised run does not reproduce event for event\n");
                const std::string path = replay_path(a, idx);
                if (!write_replay(path, a, x, ts, idx, sh.tried)) {
                    fprintf(stderr, "cannot write %s\n", path.c_str());
                    rc = 4;
                } else {
                    rc = 1;
                    vjson = violation_json(idx, cls, x, recs[stop_at].msg, path, before, after);
                }
            }
        }
    }
    std::ostringstream js;
    js << "{\"variant\": \"" << SIM_VARIANT << "\", \"property\": \"" << a.prop << "\", \"seed\": " << a.seed << ", \"start\": " << a.start << ", \"planned\": " << a.count
       << ", \"runs\": " << done << ", \"processes\": " << processes << ", \"distinct\": " << sigs.size() << ", \"blocks\": " << blocks << ", \"loghash\": \"" << std::hex
       << allhash << std::dec << "\", \"search_s\": " << t_search << ", \"out_of_time\": " << (out_of_time ? "true" : "false") << ", \"maxsteps\": " << shm->maxsteps
       << ", \"counters\": {";
    for (int i = 0; i < C_count; i++) js << (i ? ", " : "") << "\"" << kCtrNames[i] << "\": " << shm->ctr[i];
    js << "}, \"samples\": [";
    for (uint64_t k = 0, n = 0; k < kSamples; k++)
        if (samples[kSample * k]) js << (n++ ? ", " : "") << "\"" << esc(samples + kSample * k) << "\"";
    js << "], \"known\": {";
    {
        size_t n = 0;
        for (auto& k : known_hits) js << (n++ ? ", " : "") << "\"" << esc(k.first) << "\": " << k.second;
    }
    js << "}, \"violation\": " << vjson << ", \"sigs\": \"";
    {
        // folded to 40 bits each so that the union over the variants can be counted
        char b[16];
        for (uint64_t s : sigs) {
            snprintf(b, sizeof b, "%010llx", static_cast<unsigned long long>(s >> 24));
            js << b;
        }
    }
    js << "\"}\n";
    if (a.out.empty())
        std::cout << js.str();
    else {
        std::ofstream f(a.out);
        f << js.str();
    }
    return rc;
}

int replay(const Args& a)
{
    std::ifstream f(a.file);
    std::string l, prop, cls, variant;
    uint64_t hash = 0;
    Tapes ts;
    if (!std::getline(f, l) || l != "MSHIO-SIM-REPLAY 1") {
        fprintf(stderr, "not a replay file\n");
        return 2;
    }
    while (std::getline(f, l)) {
        std::istringstream is(l);
        std::string k;
        is >> k;
        if (k == "property") is >> prop;
        if (k == "variant") is >> variant;
        if (k == "class") is >> cls;
        if (k == "loghash") is >> std::hex >> hash;
        if (k == "tape") {
            size_t n = 0;
            is >> n;
            std::vector<uint64_t> v(n);
            for (auto& x : v) is >> x;
            ts.push_back(v);
        }
    }
    const props::Prop* p = props::find(prop);
    if (!p || ts.empty()) {
        fprintf(stderr, "bad replay file\n");
        return 2;
    }
    if (variant != SIM_VARIANT) fprintf(stderr, "note: recorded with variant %s, this is %s\n", variant.c_str(), SIM_VARIANT);
    Outcome o = replay_tapes(*p, ts, true);
    printf("%s", o.log.c_str());
    if (!o.err.empty()) printf("%s\n", o.err.substr(0, 6000).c_str());
    if (o.rec.state != R_violation) {
        printf("replay: no violation\n");
        return 0;
    }
    printf("case: %s\n", o.sample.c_str());
    printf("replay: property=%s class=%s %s\n", prop.c_str(), o.rec.cls, o.rec.msg);
    bool same = cls == o.rec.cls && hash == o.rec.loghash;
    printf("replay: %s\n", same ? "reproduced exactly" : "reproduced, but not event for event");
    return 1;
}

} // namespace

int main(int argc, char** argv)
{
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
        setenv("SIM_NO_REEXEC", "1", 1);
        if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    shm = static_cast<Shared*>(shared_map(sizeof(Shared)));
    start_zygote();
    Args a;
    if (argc > 1) a.mode = argv[1];
    for (int i = 2; i < argc; i++) {
        std::string k = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (k == "--prop") a.prop = val();
        else if (k == "--seed") a.seed = strtoull(val().c_str(), nullptr, 10);
        else if (k == "--start") a.start = strtoull(val().c_str(), nullptr, 10);
        else if (k == "--count") a.count = strtoull(val().c_str(), nullptr, 10);
        else if (k == "--jobs") a.jobs = atoi(val().c_str());
        else if (k == "--out") a.out = val();
        else if (k == "--known") a.known = val();
        else if (k == "--replay-dir") a.replay_dir = val();
        else if (k == "--max-wall") a.max_wall = atof(val().c_str());
        else if (k == "--shrink-wall") a.shrink_wall = atof(val().c_str());
        else if (k == "--hashes") a.print_hashes = true;
        else a.file = k;
    }
    if (a.replay_dir.empty()) a.replay_dir = ".";
    if (a.mode == "replay") return replay(a);
    const props::Prop* p = props::find(a.prop);
    if (a.mode != "batch" || !p) {
        fprintf(stderr, "usage: runner batch --prop C01 --seed N --start N --count N --jobs N --out FILE | runner replay FILE\n");
        return 2;
    }
    return batch(a, *p);
}
