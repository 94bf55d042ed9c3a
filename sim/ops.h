// Calls into the library under the simulator.
#pragma once
#include "model.h"
#include "world.h"

#include <memory>

namespace ops {
using mshio::MshSpec;

struct Call
{
    bool threw = false;
    bool std_exc = false;
    bool bad_alloc = false;
    std::string type, what;
    MshSpec spec; // of a load
    bool stream_failed = false; // of a save to a stream
    std::string bytes; // what the sink holds after a save
    uint64_t fired = 0; // faults that fired during the call
    uint64_t steps = 0;
    int64_t allocs = 0;
    uint64_t alloc_bytes = 0, moved = 0, stack = 0, fetched = 0;
    int64_t peak = 0;
    bool ok() const { return !threw && !stream_failed; }
    std::string outcome() const;
};

struct In
{
    int medium = 0; // 0 simulated stream, 1 load_msh(file name), 2 istringstream, 3 ifstream handed to load_msh(istream&)
    sim::InPlan in;
    sim::FsPlan fs;
    std::string path; // media 1, 3; default chosen
    std::string lead; // bytes of the stream read by the caller before the call (not medium 1)
};
struct Out
{
    int medium = 0; // 0 simulated stream, 1 save_msh(file name), 2 ostringstream, 3 ofstream handed to save_msh(ostream&)
    sim::OutPlan out;
    sim::FsPlan fs;
    std::string before; // bytes already in the sink (media 0 and 2)
    std::string old_file; // media 1, 3
    bool has_old = false;
    bool keep = false; // leave what is there
    std::string path; // media 1, 3; default chosen
};
In draw_source(sim::Tape& t);
Out draw_sink(sim::Tape& t);
std::string describe(const In&);
std::string describe(const Out&);

// Runs f inside the simulated world; fills in the exception part of c.
void enter(Call& c, const std::function<void()>& f);
extern bool g_source_changed; // a load left its file other than it was
extern uint64_t g_limit; // step limit for one call
extern unsigned char g_stack_fill;

Call load(const std::string& bytes, const In& in);
Call load_path(const std::string& path, const sim::FsPlan* plan = nullptr);
Call load_stream(std::istream& in);
Call save(const MshSpec& spec, const Out& out);
Call save_stream(std::ostream& out, const MshSpec& spec);
Call save_path(const std::string& path, const MshSpec& spec, const sim::FsPlan* plan = nullptr);
Call plain_save(const MshSpec& spec); // ostringstream, no faults
std::string path_of(const char* name);
std::string draw_path(sim::Tape& t, const char* name); // names of all kinds, inside the scratch directory
uint64_t bucket(uint64_t n);

} // namespace ops
