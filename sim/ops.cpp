#include "ops.h"

#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <sstream>

namespace ops {
using namespace sim;

bool g_source_changed = false;
uint64_t g_limit = 400000000ull;
unsigned char g_stack_fill = 0;

std::string Call::outcome() const
{
    if (threw) return "threw " + type + ": " + what;
    if (stream_failed) return "left the stream failed";
    return "returned";
}

__attribute__((noinline)) static void scribble(unsigned char c)
{
    volatile char buf[24 * 1024];
    memset(const_cast<char*>(buf), c, sizeof buf);
    asm volatile("" ::"r"(buf) : "memory");
}

void enter(Call& c, const std::function<void()>& f)
{
    scribble(g_stack_fill);
    const int64_t a0 = tls.alloc_index;
    tls.budget_live = 0;
    tls.alloc_bytes = tls.moved = 0;
    tls.peak_live = 0;
    tls.stack_low = ~uintptr_t(0);
    const uintptr_t top = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
    if (!sched_active()) reset_steps(g_limit);
    count(C_sut_calls);
    tls.idle_wakes = 0;
    tls.in_sut = true;
    try {
        f();
        tls.in_sut = false;
        count(C_sut_returned);
    } catch (const Violation&) {
        tls.in_sut = false;
        throw;
    } catch (const std::exception& e) {
        tls.in_sut = false;
        c.threw = c.std_exc = true;
        c.bad_alloc = dynamic_cast<const std::bad_alloc*>(&e) != nullptr;
        c.what = e.what();
        const std::type_info* ti = abi::__cxa_current_exception_type();
        int st = 0;
        char* n = ti ? abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st) : nullptr;
        c.type = n ? n : "?";
        free(n);
        count(C_sut_threw);
    } catch (...) {
        tls.in_sut = false;
        c.threw = true;
        c.type = "non-standard exception";
        count(C_sut_threw);
    }
    c.allocs = tls.alloc_index - a0;
    c.alloc_bytes = tls.alloc_bytes;
    c.moved = tls.moved;
    c.peak = tls.peak_live;
    c.stack = tls.stack_low < top ? top - tls.stack_low : 0;
    if (!sched_active()) {
        c.steps = g_steps + static_cast<uint64_t>(tls.slice - tls.fuel);
        count(C_steps_k, c.steps);
        if (c.steps > shm->maxsteps) shm->maxsteps = c.steps;
    }
}

uint64_t bucket(uint64_t n)
{
    uint64_t b = 0;
    while (n) b++, n >>= 1;
    return b;
}

In draw_source(Tape& t)
{
    In in;
    static const int m[] = {0, 0, 0, 1, 1, 2, 3};
    in.medium = m[t.draw(7)];
    if (in.medium == 0) in.in = draw_in(t);
    if (in.medium == 1 || in.medium == 3) {
        draw_fs(t, in.fs);
        in.path = draw_path(t, "in.msh");
        in.fs.read_only = in.medium == 1 && t.chance(1, 3); // a caller's fstream may want to write
        in.fs.pipe = t.chance(1, 6);
        count(C_p_file_medium);
    } else
        count(C_p_stream_medium);
    return in;
}
Out draw_sink(Tape& t)
{
    Out o;
    static const int m[] = {0, 0, 0, 1, 1, 2, 3};
    o.medium = m[t.draw(7)];
    if (o.medium == 0) o.out = draw_out(t);
    if (o.medium == 1 || o.medium == 3) {
        draw_fs(t, o.fs);
        o.path = draw_path(t, "out.msh");
        o.fs.pipe = t.chance(1, 6);
        count(C_p_file_medium);
    } else
        count(C_p_stream_medium);
    return o;
}
static const char* const kMedia[] = {"stream", "file", "stringstream", "fstream"};
static std::string describe(const FsPlan& p)
{
    char b[300];
    snprintf(b, sizeof b, "%s{short=%d eintr=%d read_fail_at=%lld%s errno=%d write_fail_at=%lld%s errno=%d open=%d close=%d crash_at=%lld torn=%d}", p.pipe ? "pipe" : "fs", p.shortness, p.eintr,
        static_cast<long long>(p.read_fail_at), p.read_sticky ? "+" : "", p.read_errno, static_cast<long long>(p.write_fail_at),
        p.write_sticky ? "+" : "", p.write_errno, p.open_errno, p.close_errno, static_cast<long long>(p.crash_at), p.crash_torn);
    return b;
}
std::string describe(const In& i)
{
    std::string s = kMedia[i.medium];
    if (i.medium == 0) s += " " + sim::describe(i.in);
    if (i.medium == 1 || i.medium == 3) s += " " + describe(i.fs);
    if (!i.lead.empty()) s += " from byte " + std::to_string(i.lead.size()) + " of the stream";
    return s;
}
std::string describe(const Out& o)
{
    std::string s = kMedia[o.medium];
    if (o.medium == 0) s += " " + sim::describe(o.out);
    if (o.medium == 1 || o.medium == 3) s += " " + describe(o.fs);
    return s;
}

std::string path_of(const char* name) { return scratch_dir() + name; }

std::string draw_path(Tape& t, const char* name)
{
    const uint64_t k = t.draw(28);
    scratch_dir();
    if (k < 14) return path_of(name);
    count(C_p_file_name);
    static const char* const names[] = {"a mesh (1).msh", "noext", "mesh.v2.tar.gz", "m\xc3\xa9sh \xe2\x82\xac.msh", "sub/x.msh", "./y.msh", "%d%s%n.msh", "-x.msh", "MESH.MSH",
        ".hidden", "two\nlines.msh", "x.msh.tmp", "sub/../z.msh"};
    if (k == 27) return std::string(180, 'l') + ".msh"; // relative
    std::string n = names[k - 14];
    return t.draw(2) ? n : path_of(n.c_str());
}

Call load_stream(std::istream& in)
{
    Call c;
    enter(c, [&] {
        MshSpec s = mshio::load_msh(in);
        Outside o;
        c.spec = std::move(s);
    });
    return c;
}

Call load_path(const std::string& path, const FsPlan* plan)
{
    Call c;
    fs = plan ? *plan : FsPlan();
    fs_begin();
    enter(c, [&] {
        MshSpec s = mshio::load_msh(path);
        Outside o;
        c.spec = std::move(s);
    });
    fs_end();
    c.fired = fs.read_fired + fs.open_fired;
    c.fetched = fs.bytes_in;
    return c;
}

// The caller has read some bytes already: the document starts at the stream's position.
static void skip_lead(std::istream& s, const In& in)
{
    if (in.lead.empty()) return;
    std::vector<char> buf(in.lead.size());
    s.read(buf.data(), static_cast<std::streamsize>(buf.size()));
}

Call load(const std::string& bytes, const In& in)
{
    switch (in.medium) {
    case 0: {
        const std::string all = in.lead.empty() ? std::string() : in.lead + bytes;
        SimIn buf(in.lead.empty() ? bytes : all, in.in);
        std::istream s(&buf);
        skip_lead(s, in);
        Call c = load_stream(s);
        c.fired = buf.fired;
        c.fetched = buf.given;
        return c;
    }
    case 1: {
        std::string p = in.path.empty() ? path_of("in.msh") : in.path;
        raw_write(p, bytes);
        Call c = load_path(p, &in.fs);
        if (bytes.size() < 100000) {
            bool exists;
            if (raw_read(p, &exists) != bytes || !exists) g_source_changed = true;
        }
        return c;
    }
    case 2: {
        std::istringstream s(in.lead + bytes);
        skip_lead(s, in);
        return load_stream(s);
    }
    default: {
        std::string p = in.path.empty() ? path_of("in.msh") : in.path;
        raw_write(p, in.lead + bytes);
        fs = in.fs;
        fs_begin();
        Call c;
        {
            std::ifstream f(p.c_str(), std::ios::binary);
            skip_lead(f, in);
            enter(c, [&] {
                MshSpec s = mshio::load_msh(f);
                Outside o;
                c.spec = std::move(s);
            });
        }
        fs_end();
        c.fired = fs.read_fired + fs.open_fired;
        c.fetched = fs.bytes_in;
        return c;
    }
    }
}

Call save_stream(std::ostream& out, const MshSpec& spec)
{
    Call c;
    enter(c, [&] { mshio::save_msh(out, spec); });
    c.stream_failed = out.fail();
    return c;
}

Call save_path(const std::string& path, const MshSpec& spec, const FsPlan* plan)
{
    Call c;
    fs = plan ? *plan : FsPlan();
    fs_begin();
    enter(c, [&] { mshio::save_msh(path, spec); });
    fs_end();
    c.fired = fs.write_fired + fs.open_fired + fs.close_fired;
    c.bytes = raw_read(path);
    return c;
}

Call save(const MshSpec& spec, const Out& o)
{
    switch (o.medium) {
    case 0: {
        SimOut buf(o.out);
        buf.stored = o.before;
        Call c;
        std::ostream s(&buf);
        c = save_stream(s, spec);
        if (c.ok()) { // the caller's own flush; a failure here is reported by the stream
            s.flush();
            c.stream_failed = s.fail();
        }
        c.bytes = buf.stored;
        c.fired = buf.fired;
        return c;
    }
    case 2: {
        std::ostringstream s;
        s << o.before;
        Call c = save_stream(s, spec);
        c.bytes = s.str();
        return c;
    }
    default: {
        std::string p = o.path.empty() ? path_of("out.msh") : o.path;
        if (o.has_old)
            raw_write(p, o.old_file);
        else if (!o.keep)
            raw_unlink(p);
        if (o.medium == 1) return save_path(p, spec, &o.fs);
        Call c;
        fs = o.fs;
        fs_begin();
        {
            std::ofstream f(p.c_str(), std::ios::binary);
            enter(c, [&] { mshio::save_msh(f, spec); });
            c.stream_failed = f.fail();
            if (c.ok()) {
                f.close();
                c.stream_failed = f.fail();
            }
        }
        fs_end();
        c.fired = fs.write_fired + fs.open_fired + fs.close_fired;
        c.bytes = raw_read(p);
        return c;
    }
    }
}

Call plain_save(const MshSpec& spec)
{
    Out o;
    o.medium = 2;
    return save(spec, o);
}

} // namespace ops
