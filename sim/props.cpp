#include "props.h"

#include "codec.h"
#include "gen.h"
#include "model.h"
#include "ops.h"
#include "world.h"

#include <algorithm>
#include <cerrno>
#include <cctype>
#include <climits>
#include <csignal>
#include <cfenv>
#include <clocale>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <locale>
#include <malloc.h>
#include <sstream>
#include <new>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace props {
using namespace sim;
using mshio::MshSpec;
using model::Doc;
using model::Section;
using ops::Call;

namespace {

// -------------------------------------------------------------------------------------------- helpers
uint64_t shape(const MshSpec& s)
{
    uint64_t h = 0;
    auto add = [&](uint64_t v) { h = mix(h, v); };
    add(s.mesh_format.version == "2.2"), add(static_cast<uint64_t>(s.mesh_format.file_type));
    add(ops::bucket(s.nodes.num_nodes)), add(ops::bucket(s.nodes.entity_blocks.size()));
    add(ops::bucket(s.elements.num_elements)), add(ops::bucket(s.elements.entity_blocks.size()));
    add(ops::bucket(s.nodes.max_node_tag) / 8);
    uint64_t types = 0;
    for (const auto& b : s.elements.entity_blocks) types |= 1ull << (b.element_type & 63);
    add(types);
    add(!s.entities.points.empty() + 2 * !s.entities.curves.empty() + 4 * !s.entities.surfaces.empty() + 8 * !s.entities.volumes.empty());
    add(ops::bucket(s.physical_groups.size()));
    add(ops::bucket(s.node_data.size())), add(ops::bucket(s.element_data.size())), add(ops::bucket(s.element_node_data.size()));
    add(ops::bucket(s.curves.size())), add(ops::bucket(s.patches.size()));
    return h;
}

[[noreturn]] void violate(Ctx&, const std::string& cls, const std::string& msg)
{
    logf("VIOLATION %s", cls.c_str());
    fail(cls, msg);
}

// Clears every fault plan and ambient setting the previous run may have left behind.
void fresh_world(Ctx& c)
{
    tls.fail_at = -1;
    tls.fail_persistent = false;
    tls.fail_size = 0;
    tls.budget_max = 0;
    tls.fired = tls.budget_fired = 0;
    fs = FsPlan();
    static const unsigned char fills[] = {0xA5, 0x00, 0xFF, 0x01};
    g_fill = fills[c.t.draw(4)];
    ops::g_stack_fill = fills[c.t.draw(4)];
    if (g_fill != 0xA5) count(C_f_heap_pattern);
    set_clock(c.t);
    ops::g_limit = 400000000ull;
    ops::g_source_changed = false;
}

void log_spec(const char* what, const MshSpec& s)
{
    logf("%s: %s digest=%016llx", what, model::summary(s).c_str(), static_cast<unsigned long long>(model::digest(s)));
}
void log_bytes(const char* what, const std::string& b)
{
    logf("%s: %zu bytes hash=%016llx", what, b.size(), static_cast<unsigned long long>(fnv(b)));
}
void log_call(const char* what, const Call& c)
{
    logf("%s: %s fired=%llu%s", what, c.outcome().c_str(), static_cast<unsigned long long>(c.fired),
        c.threw ? "" : "");
}

// Now and then, makes what the library writes for the spec end, or a section of it, where a buffer may.
void align(Ctx& c, MshSpec& s)
{
    if (!c.t.chance(1, 24)) return;
    MshSpec a = s;
    mshio::PhysicalGroup g;
    g.dim = 2;
    g.tag = 1000003;
    for (const auto& p : a.physical_groups)
        if (p.dim == g.dim && p.tag == g.tag) return;
    g.name = "p";
    a.physical_groups.push_back(g);
    const Call w = ops::plain_save(a);
    if (!w.ok()) return;
    std::vector<size_t> at(2, w.bytes.size());
    for (size_t i = w.bytes.find("\n$End", w.bytes.find("\"p\"")); i != std::string::npos; i = w.bytes.find("\n$End", i + 1)) {
        at.push_back(i + 1);
        const size_t e = w.bytes.find('\n', i + 1);
        if (e != std::string::npos) at.push_back(e + 1);
    }
    a.physical_groups.back().name += std::string(gen::padding(c.t, at[c.t.draw(at.size())]), 'x');
    s = a;
    count(C_p_aligned);
}

// A document: written by the independent writer, or by the library itself (then located by the reader).
Doc some_document(Ctx& c, gen::DocOpt o, int library_pct)
{
    if (c.t.chance(static_cast<uint64_t>(library_pct), 100)) {
        MshSpec s = gen::spec(c.t, o.content);
        align(c, s);
        Call sv = ops::plain_save(s);
        if (sv.ok()) {
            codec::Decoded d = codec::decode(sv.bytes);
            if (d.error.empty()) {
                count(C_p_library_doc);
                return d.doc;
            }
        }
        Doc d = model::doc_of_spec(s);
        codec::encode(d, codec::Style());
        if (d.v22()) d.spec.entities = mshio::Entities();
        return model::check_load(d, MshSpec()).empty() ? d : d;
    }
    return gen::document(c.t, o);
}

// Documents and specs that differ from others in one value, which anything remembered by name, size or tag confuses.
void add_siblings(Tape& t, std::vector<Doc>& docs, std::vector<MshSpec>& specs)
{
    for (size_t n = t.draw(4); n > 0; n--) {
        count(C_p_sibling);
        if (t.draw(2) == 0)
            docs.push_back(gen::sibling(t, docs[t.draw(docs.size())]));
        else {
            MshSpec s = specs[t.draw(specs.size())];
            gen::perturb(t, s);
            specs.push_back(s);
        }
    }
}

uint64_t values_in(const MshSpec& s)
{
    uint64_t n = 0;
    for (auto& b : s.nodes.entity_blocks) n += b.tags.size() + b.data.size();
    for (auto& b : s.elements.entity_blocks) n += b.data.size();
    for (auto* v : {&s.node_data, &s.element_data, &s.element_node_data})
        for (auto& d : *v)
            for (auto& e : d.entries) n += 1 + e.data.size();
    return n;
}

// ---------------------------------------------------------------------------------------- C01 and C02
void roundtrip(Ctx& c, int version)
{
    fresh_world(c);
    gen::Opt o;
    o.version = version;
    o.odd_dims = true;
    o.allow_unrepresentable = c.t.chance(1, 10);
    o.max_size = 5;
    MshSpec spec = gen::spec(c.t, o);
    ops::g_limit = 400000000ull + 400 * values_in(spec);
    align(c, spec);
    const bool rep = model::representable(spec);
    if (!rep) count(C_p_unrepresentable);
    log_spec("spec", spec);
    ops::Out out = ops::draw_sink(c.t);
    ops::In in = ops::draw_source(c.t);
    if (out.medium == 1 || out.medium == 3) {
        out.has_old = c.t.draw(2) == 1;
        if (out.has_old) out.old_file = std::string(c.t.draw(100000), 'o');
    }
    c.note(shape(spec)), c.note(static_cast<uint64_t>(out.medium * 8 + in.medium)), c.note(static_cast<uint64_t>(rep));
    c.sample = model::summary(spec) + " | save to " + ops::describe(out) + " | load from " + ops::describe(in);
    Call s = ops::save(spec, out);
    log_call("save", s);
    log_bytes("saved", s.bytes);
    if (!s.ok()) {
        if (rep) violate(c, "save-failed", "saving a valid spec " + s.outcome() + " (" + model::summary(spec) + ")");
        return;
    }
    Call l = ops::load(s.bytes, in);
    log_call("load", l);
    if (l.threw) violate(c, "load-failed", "loading what save wrote " + l.outcome() + " (" + model::summary(spec) + ")");
    log_spec("loaded", l.spec);
    Doc want = model::doc_of_spec(spec);
    if (version == 1) want.spec.entities = mshio::Entities();
    std::string d = model::check_load(want, l.spec);
    if (!d.empty()) violate(c, rep ? "altered" : "unrepresentable-stored", d + " (" + model::summary(spec) + ")");
}
void c01(Ctx& c) { roundtrip(c, 0); }

// One array of more than 2^32 bytes, kept in memory outside the heap between the save and the load.
struct Region
{
    char* p;
    size_t cap, size = 0;
    explicit Region(size_t n) : p(static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0))), cap(n) {}
    ~Region()
    {
        if (p != MAP_FAILED) munmap(p, cap);
    }
};
class RegionOut : public std::streambuf
{
public:
    explicit RegionOut(Region& r) : m_r(r) {}

protected:
    int_type overflow(int_type c) override
    {
        const char ch = traits_type::to_char_type(c);
        return traits_type::eq_int_type(c, traits_type::eof()) || xsputn(&ch, 1) == 1 ? traits_type::not_eof(c) : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        Outside o;
        if (n < 0) return 0;
        const size_t k = std::min(static_cast<size_t>(n), m_r.cap - m_r.size);
        memcpy(m_r.p + m_r.size, s, k);
        m_r.size += k;
        return static_cast<std::streamsize>(k);
    }

private:
    Region& m_r;
};
class RegionIn : public std::streambuf
{
public:
    RegionIn(Region& r, size_t piece) : m_r(r), m_piece(piece) {}

protected:
    int_type underflow() override
    {
        if (m_at >= m_r.size) return traits_type::eof();
        const size_t n = std::min(m_piece, m_r.size - m_at);
        setg(m_r.p + m_at, m_r.p + m_at, m_r.p + m_at + n);
        m_at += n;
        return traits_type::to_int_type(*gptr());
    }

private:
    Region& m_r;
    size_t m_piece, m_at = 0;
};
void giant(Ctx& c, const bool elements)
{
    fresh_world(c);
    Tape& t = c.t;
    g_cpu_limit = 400;
    ops::g_limit = 30000000000ull;
    g_machine_memory = int64_t(64) << 30;
    count(C_p_giant_array);
    const size_t n = (elements ? (size_t(1) << 32) / 16 : (size_t(1) << 32) / 24) + 1 + t.draw(1000);
    static const size_t pieces[] = {~size_t(0), 1 << 20, 1 << 16, 999983};
    const size_t piece = pieces[t.draw(4)];
    MshSpec spec;
    spec.mesh_format.file_type = 1;
    auto value = [](size_t i) { return 0.5 * static_cast<double>(i % 1000003) - 7; };
    {
        mshio::NodeBlock b;
        b.entity_dim = 2, b.entity_tag = 1;
        b.num_nodes_in_block = elements ? 2 : n;
        b.tags.resize(b.num_nodes_in_block);
        for (size_t i = 0; i < b.tags.size(); i++) b.tags[i] = i + 1;
        b.data.resize(b.num_nodes_in_block * 3);
        for (size_t i = 0; i < b.data.size(); i++) b.data[i] = value(i);
        spec.nodes.num_entity_blocks = 1, spec.nodes.num_nodes = b.num_nodes_in_block;
        spec.nodes.min_node_tag = 1, spec.nodes.max_node_tag = b.num_nodes_in_block;
        spec.nodes.entity_blocks.push_back(std::move(b));
    }
    if (elements) {
        mshio::ElementBlock b;
        b.entity_dim = 0, b.entity_tag = 1, b.element_type = 15;
        b.num_elements_in_block = n;
        b.data.resize(2 * n);
        for (size_t i = 0; i < n; i++) b.data[2 * i] = i + 1, b.data[2 * i + 1] = 1 + (i * 7 % 3 == 0);
        spec.elements.num_entity_blocks = 1, spec.elements.num_elements = n;
        spec.elements.min_element_tag = 1, spec.elements.max_element_tag = n;
        spec.elements.entity_blocks.push_back(std::move(b));
    }
    c.note(elements), c.note(piece);
    c.sample = "4.1 binary, " + std::to_string(n) + (elements ? " elements" : " nodes") + " in one block";
    Region r(size_t(8) << 30);
    if (r.p == MAP_FAILED) throw std::logic_error("no address space");
    Call s;
    {
        RegionOut buf(r);
        std::ostream out(&buf);
        s = ops::save_stream(out, spec);
    }
    logf("saved %zu bytes", r.size);
    if (!s.ok()) violate(c, "save-failed", "saving a valid spec " + s.outcome());
    spec = MshSpec();
    RegionIn buf(r, piece);
    std::istream in(&buf);
    Call l = ops::load_stream(in);
    if (!l.ok()) violate(c, "load-failed", "loading what save wrote " + l.outcome());
    const mshio::Nodes& nd = l.spec.nodes;
    const mshio::Elements& el = l.spec.elements;
    const size_t nn = elements ? 2 : n;
    bool good = nd.num_nodes == nn && nd.num_entity_blocks == 1 && nd.entity_blocks.size() == 1 && nd.min_node_tag == 1 && nd.max_node_tag == nn &&
                nd.entity_blocks[0].num_nodes_in_block == nn && nd.entity_blocks[0].tags.size() == nn && nd.entity_blocks[0].data.size() == 3 * nn;
    if (!good) violate(c, "altered", "the node counts differ");
    for (size_t i = 0; i < nn; i++)
        if (nd.entity_blocks[0].tags[i] != i + 1) violate(c, "altered", "the tag of node " + std::to_string(i) + " differs");
    for (size_t i = 0; i < 3 * nn; i++)
        if (nd.entity_blocks[0].data[i] != value(i)) violate(c, "altered", "coordinate " + std::to_string(i) + " differs");
    if (!elements) return;
    good = el.num_elements == n && el.num_entity_blocks == 1 && el.entity_blocks.size() == 1 && el.min_element_tag == 1 && el.max_element_tag == n &&
           el.entity_blocks[0].num_elements_in_block == n && el.entity_blocks[0].data.size() == 2 * n;
    if (!good) violate(c, "altered", "the element counts differ");
    for (size_t i = 0; i < n; i++)
        if (el.entity_blocks[0].data[2 * i] != i + 1 || el.entity_blocks[0].data[2 * i + 1] != 1u + (i * 7 % 3 == 0)) violate(c, "altered", "element " + std::to_string(i) + " differs");
}
void c02(Ctx& c) { roundtrip(c, 1); }

// ------------------------------------------------------------------------------------------------ C03
bool has_empty_element_block(const MshSpec& s)
{
    for (const auto& b : s.elements.entity_blocks)
        if (b.num_elements_in_block == 0) return true;
    return false;
}

// 0 accepted, 1 threw, 2 died
int validate_apart(const MshSpec& spec)
{
    pid_t pid = fork();
    if (pid == 0) {
        for (int sig : {SIGFPE, SIGSEGV, SIGABRT, SIGILL, SIGBUS}) signal(sig, SIG_DFL);
        struct rlimit none = {0, 0};
        setrlimit(RLIMIT_CORE, &none);
        syscall(SYS_close, 2);
        try {
            mshio::validate_spec(spec);
        } catch (...) {
            _exit(41);
        }
        _exit(40);
    }
    int st = 0;
    if (pid < 0) throw std::runtime_error("fork failed");
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 41) return 1;
    return 2;
}

// What the caller may have read from the stream before: another document, which is none of the load's business.
std::string first_document(uint64_t binary)
{
    MshSpec s;
    s.mesh_format.file_type = static_cast<int>(binary);
    s.physical_groups.resize(1);
    s.physical_groups[0].name = "elsewhere";
    return ops::plain_save(s).bytes;
}

void c03(Ctx& c)
{
    fresh_world(c);
    gen::DocOpt o;
    o.lookalikes = true;
    o.content.odd_dims = true;
    o.content.max_size = 3;
    Doc doc = gen::document(c.t, o);
    log_bytes("document", doc.bytes);
    size_t ways = 1 + c.t.draw(2);
    MshSpec last;
    c.note(shape(doc.spec));
    for (auto& s : doc.sections) c.note(static_cast<uint64_t>(s.kind));
    for (size_t i = 0; i < ways; i++) {
        ops::In in = ops::draw_source(c.t);
        if (in.medium != 1 && c.t.chance(1, 5)) {
            in.lead = c.t.draw(2) ? std::string(1 + c.t.draw(9000), 'x') : first_document(c.t.draw(2));
            count(C_p_lead);
        }
        c.note(static_cast<uint64_t>(in.medium)), c.note(ops::bucket(in.lead.size()));
        c.sample = model::summary(doc.spec) + " in " + std::to_string(doc.sections.size()) + " sections, " + std::to_string(doc.bytes.size()) +
                   " bytes | " + ops::describe(in);
        Call l = ops::load(doc.bytes, in);
        log_call("load", l);
        if (l.threw) violate(c, "refused", "loading a well-formed document " + l.outcome() + " (" + model::summary(doc.spec) + ")");
        log_spec("loaded", l.spec);
        std::string d = model::check_load(doc, l.spec);
        if (!d.empty()) violate(c, "content", d + " (" + model::summary(doc.spec) + ")");
        if (has_empty_element_block(l.spec)) {
            last = std::move(l.spec);
            continue;
        }
        Call v;
        ops::enter(v, [&] { mshio::validate_spec(l.spec); });
        log_call("validate", v);
        count(C_p_validated);
        if (v.threw) violate(c, "validation", "validate_spec on the loaded spec " + v.outcome() + " (" + model::summary(doc.spec) + ")");
    }
    if (has_empty_element_block(last)) {
        // Validation of such a spec is tried in a process of its own, since it may die (known-findings.txt).
        count(C_p_validated);
        int r = validate_apart(last);
        logf("validate apart: %d", r);
        if (r == 1) violate(c, "validation", "validate_spec on a loaded spec with an empty element block threw");
        if (r == 2) violate(c, "validate-crash", "validate_spec on a loaded spec with an empty element block killed the process");
    }
}

// ------------------------------------------------------------------------------------------------ C04
void c04(Ctx& c)
{
    fresh_world(c);
    gen::Opt o;
    o.odd_dims = true;
    o.max_size = 3;
    MshSpec spec = gen::spec(c.t, o);
    align(c, spec);
    log_spec("spec", spec);
    ops::Out out = ops::draw_sink(c.t);
    if (c.t.chance(1, 3)) out.before = c.t.draw(2) ? "# something else first\n" : "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n";
    if (out.medium == 1 || out.medium == 3) {
        out.before.clear();
        out.has_old = c.t.draw(2) == 1;
        if (out.has_old) out.old_file = std::string(c.t.draw(20000), '\n');
    }
    c.note(shape(spec)), c.note(static_cast<uint64_t>(out.medium)), c.note(out.before.size());
    c.sample = model::summary(spec) + " | " + ops::describe(out);
    Call s = ops::save(spec, out);
    log_call("save", s);
    log_bytes("saved", s.bytes);
    if (!s.ok()) violate(c, "save-failed", "saving a valid spec " + s.outcome() + " (" + model::summary(spec) + ")");
    if (s.bytes.compare(0, out.before.size(), out.before) != 0 || s.bytes.size() < out.before.size())
        violate(c, "not-appended", "the bytes already in the sink changed");
    std::string bytes = s.bytes.substr(out.before.size());
    codec::Decoded d = codec::decode(bytes);
    if (!d.error.empty()) violate(c, "malformed", d.error + " (" + model::summary(spec) + ")");
    Doc want = model::doc_of_spec(spec);
    if (want.v22()) want.spec.entities = mshio::Entities();
    // The independent reading of a 2.2 document keeps all nodes in one block.
    std::string df = model::check_load(want, d.doc.spec, false);
    if (!df.empty()) violate(c, "content", "independent reader: " + df + " (" + model::summary(spec) + ")");
    for (const auto& sec : d.doc.sections) {
        bool empty = false;
        switch (sec.kind) {
        case model::K_Physical: empty = spec.physical_groups.empty(); break;
        case model::K_Entities: empty = spec.entities.empty(); break;
        case model::K_Nodes: empty = spec.nodes.num_nodes == 0; break;
        case model::K_Elements: empty = spec.elements.num_elements == 0; break;
        case model::K_Curves: empty = !model::kNano || spec.curves.empty(); break;
        case model::K_Patches: empty = !model::kNano || spec.patches.empty(); break;
        case model::K_NanoFormat: empty = !model::kNano; break;
        default: break;
        }
        if (empty) violate(c, "empty-section", std::string("section ") + model::section_name(sec.kind) + " written although the spec has no such content");
    }
    ops::Out again = ops::draw_sink(c.t);
    if (again.medium == 1 || again.medium == 3) again.has_old = true, again.old_file = "old";
    Call s2 = ops::save(spec, again);
    log_call("second save", s2);
    if (!s2.ok()) violate(c, "save-failed", "saving the same spec again " + s2.outcome());
    if (s2.bytes != bytes) violate(c, "not-deterministic", "saving the same spec again gave different bytes (" + model::summary(spec) + ", " + ops::describe(again) + ")");
}

// ------------------------------------------------------------------------------------------------ C05
// What a load of the first `cut` bytes (followed by zeros if zero) may return.
void check_torn(Ctx& c, const Doc& doc, size_t cut, const Call& l, const std::string& how)
{
    size_t k = 0;
    while (k < doc.sections.size() && doc.sections[k].end <= cut) k++;
    // Only white space and words that begin no section lie between two sections.
    const bool clean = k == doc.sections.size() || cut <= doc.sections[k].begin;
    count(clean ? C_p_cut_boundary : C_p_cut_inside);
    c.note(static_cast<uint64_t>(clean)), c.note(l.threw);
    if (k < doc.sections.size()) c.note(static_cast<uint64_t>(doc.sections[k].kind));
    if (l.threw) return;
    if (!clean)
        violate(c, "torn-accepted", how + " cut at byte " + std::to_string(cut) + " of " + std::to_string(doc.bytes.size()) + ", inside section " +
                (k < doc.sections.size() ? (doc.sections[k].kind == model::K_Unknown ? "$" + doc.unknown_names[doc.sections[k].index]
                                                                                     : std::string("$") + model::section_name(doc.sections[k].kind))
                                         : "?") + ": the load returned a spec");
    std::string d = model::check_load(model::prefix(doc, k), l.spec);
    if (!d.empty()) violate(c, "torn-content", how + " cut after " + std::to_string(k) + " sections at byte " + std::to_string(cut) + ": " + d);
}

size_t draw_cut(Ctx& c, const Doc& doc)
{
    const size_t n = doc.bytes.size();
    auto around = [&](size_t p, size_t before, size_t after) {
        size_t lo = p > before ? p - before : 0;
        size_t hi = std::min(n, p + after);
        return lo + c.t.draw(hi - lo + 1);
    };
    const Section& s = doc.sections[c.t.draw(doc.sections.size())];
    switch (c.t.draw(7)) {
    case 0: return c.t.draw(n + 1);
    case 1: return around(s.end, 24, 1); // in the end tag
    case 2: return around(s.body_end, 40, 0);
    case 3: return around(s.body, 2, 40);
    case 4: return around(s.begin, 2, 20);
    case 5: return s.begin + c.t.draw(s.end - s.begin + 1);
    default: {
        if (doc.fields.empty()) return c.t.draw(n + 1);
        const model::Field& f = doc.fields[c.t.draw(doc.fields.size())];
        return std::min(n, f.off + c.t.draw(f.len + 2));
    }
    }
}

void c05(Ctx& c)
{
    fresh_world(c);
    gen::DocOpt o;
    o.content.max_size = 3;
    Doc doc = some_document(c, o, 40);
    log_bytes("document", doc.bytes);
    c.note(shape(doc.spec));
    size_t cuts = doc.bytes.size() > 20000 ? 3 : 8;
    for (size_t i = 0; i < cuts; i++) {
        size_t cut = draw_cut(c, doc);
        std::string torn = doc.bytes.substr(0, cut);
        bool zero = c.t.chance(1, 4);
        if (zero) {
            static const size_t len[] = {1, 8, 100, 512, 4096, 20000};
            torn += std::string(c.t.draw(2) ? len[c.t.draw(6)] : doc.bytes.size() - cut, '\0');
            count(C_f_zero_tail);
        } else
            count(C_f_truncate);
        ops::In in = ops::draw_source(c.t);
        logf("cut %zu zero=%d", cut, zero);
        if (i == 0) c.sample = model::summary(doc.spec) + " | cut at " + std::to_string(cut) + " of " + std::to_string(doc.bytes.size()) + (zero ? " zero-filled" : "") + " | " + ops::describe(in);
        ops::g_limit = 80000000ull + 3000ull * doc.bytes.size();
        tls.budget_max = 1ll << 28;
        Call l = ops::load(torn, in);
        tls.budget_max = 0;
        log_call("load", l);
        if (!l.threw) log_spec("loaded", l.spec);
        check_torn(c, doc, cut, l, zero ? "zero-filled document" : "document");
    }
}

// ------------------------------------------------------------------------------------------------ C06
void c06(Ctx& c)
{
    fresh_world(c);
    gen::DocOpt o;
    o.content.max_size = 3;
    Doc doc = some_document(c, o, 40);
    const size_t n = doc.bytes.size();
    log_bytes("document", doc.bytes);
    c.note(shape(doc.spec));
    const int mode = static_cast<int>(c.t.draw(8));
    c.note(static_cast<uint64_t>(mode));
    Call l;
    if (mode == 7) { // nothing can be read at all
        const int how = static_cast<int>(c.t.draw(6));
        c.note(static_cast<uint64_t>(how));
        std::string path = ops::path_of("in.msh");
        raw_write(path, doc.bytes);
        FsPlan p;
        c.sample = "unreadable source, kind " + std::to_string(how);
        if (how == 0) {
            static const int e[] = {13, 24, 5, 4};
            p.open_errno = e[c.t.draw(4)];
            l = ops::load_path(path, &p);
        } else if (how == 1) {
            l = ops::load_path(ops::path_of("missing.msh"));
            count(C_f_open_fail);
        } else if (how == 2) {
            count(C_f_read_directory);
            l = ops::load_path(scratch_dir());
        } else if (how == 3) {
            count(C_f_stream_not_open);
            std::ifstream f(ops::path_of("missing.msh"), std::ios::binary);
            l = ops::load_stream(f);
        } else {
            count(C_f_entry_failed_stream);
            std::istringstream s(doc.bytes);
            s.setstate(how == 4 ? std::ios::failbit : std::ios::badbit);
            l = ops::load_stream(s);
        }
        log_call("load", l);
        if (!l.threw) violate(c, "unreadable-accepted", "loading from an unreadable source (kind " + std::to_string(how) + ") returned a spec");
    } else {
        size_t reps = n > 20000 ? 2 : 5;
        for (size_t r = 0; r < reps; r++) {
            ops::In in = ops::draw_source(c.t);
            if (in.medium == 2) {
                in.medium = 0;
                in.in = draw_in(c.t);
            }
            int64_t at;
            switch (c.t.draw(5)) {
            case 0: at = static_cast<int64_t>(n); break; // the probe for the end of the document
            case 1: at = 0; break;
            case 2: at = static_cast<int64_t>(c.t.draw(n + 1)); break;
            case 3: at = static_cast<int64_t>(doc.sections[c.t.draw(doc.sections.size())].end + c.t.draw(3)); break;
            default: at = static_cast<int64_t>(draw_cut(c, doc)); break;
            }
            bool sticky = c.t.draw(2) == 0;
            static const int errs[] = {5, 116, 11, 21};
            if (in.medium == 0) {
                in.in.fail_at = at;
                in.in.sticky = sticky;
                in.in.exc = static_cast<int>(c.t.draw(3));
            } else {
                in.fs.read_fail_at = at;
                in.fs.read_sticky = sticky;
                in.fs.read_errno = errs[c.t.draw(4)];
            }
            ops::g_limit = 80000000ull + 3000ull * n;
            l = ops::load(doc.bytes, in);
            log_call("load", l);
            c.note(static_cast<uint64_t>(in.medium)), c.note(l.fired > 0), c.note(sticky);
            if (r == 0) c.sample = model::summary(doc.spec) + " " + std::to_string(n) + " bytes | " + ops::describe(in);
            if (l.fired == 0) count(C_p_fault_not_reached);
            if (l.fired && !l.threw)
                violate(c, "error-swallowed", "the source reported an error at byte " + std::to_string(at) + " of " + std::to_string(n) +
                        (sticky ? "" : " (once)") + " and the load returned a spec; " + ops::describe(in));
            if (!l.fired) {
                if (l.threw) violate(c, "refused", "the fault was not reached but the load " + l.outcome());
                std::string d = model::check_load(doc, l.spec);
                if (!d.empty()) violate(c, "content", d);
            }
        }
    }
    // Afterwards a healthy source is read as usual.
    ops::In healthy = ops::draw_source(c.t);
    Call h = ops::load(doc.bytes, healthy);
    log_call("healthy load", h);
    if (h.threw) violate(c, "later-load", "a later load from a healthy source " + h.outcome());
    std::string d = model::check_load(doc, h.spec);
    if (!d.empty()) violate(c, "later-load", "a later load from a healthy source differs: " + d);
}

// ------------------------------------------------------------------------------------------------ C07
uint64_t wild_number(Tape& t)
{
    static const uint64_t v[] = {0, 1, 2, 3, 0xffffffffull, 0x7fffffffull, 0x80000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull,
        1000000ull, 0x100000000ull, 0x2000000000000000ull, 0x1fffffffffffffffull, 65536ull, 100ull, 0x5555555555555556ull, 0xfffffffffffffffeull, 40000000ull};
    return v[t.draw(19)];
}

void damage(Ctx& c, const Doc& doc, std::string& b)
{
    Tape& t = c.t;
    if (b.empty()) return;
    int op = static_cast<int>(t.draw(10));
    c.note(static_cast<uint64_t>(op));
    size_t p = t.draw(b.size());
    auto len = [&](size_t from) {
        static const size_t mx[] = {1, 4, 8, 64, 600, 5000};
        size_t m = std::min(b.size() - from, mx[t.draw(6)]);
        return 1 + t.draw(m);
    };
    if (op >= 6 && !doc.fields.empty()) { // aimed at a number the reader relies on
        // Mostly the rarer kinds of field, so that a document with many tags does not hide its counts.
        model::Field f = doc.fields[t.draw(doc.fields.size())];
        if (t.draw(3)) {
            static const char kinds[] = "ccccnypdtvsfok";
            char want = kinds[t.draw(14)];
            std::vector<size_t> idx;
            for (size_t i = 0; i < doc.fields.size(); i++)
                if (doc.fields[i].what == want) idx.push_back(i);
            if (!idx.empty()) f = doc.fields[idx[t.draw(idx.size())]];
        }
        if (f.off + f.len > b.size()) return;
        count(C_f_field_damage);
        c.note(static_cast<uint64_t>(f.what));
        uint64_t w = wild_number(t);
        if (f.text) {
            static const char* const txt[] = {"-1", "-2147483648", "99999999999999999999999", "x", "1e3", "nan", "", "$", "0x10", "+", "3.5", "$EndNodes", "-0"};
            std::string r = f.what == 'k' ? (t.draw(2) ? "$Nodes" : "$EndElements") : t.draw(3) == 2 ? txt[t.draw(13)] : std::to_string(w);
            logf("field '%c' at %zu becomes %s", f.what, f.off, r.c_str());
            b.replace(f.off, f.len, r);
        } else {
            if (t.draw(3) == 2) { // off by a little
                uint64_t old = 0;
                memcpy(&old, b.data() + f.off, static_cast<size_t>(f.width));
                w = old + (t.draw(2) ? 1 : ~0ull);
            }
            logf("field '%c' at %zu becomes %llx", f.what, f.off, static_cast<unsigned long long>(w));
            memcpy(&b[f.off], &w, static_cast<size_t>(f.width));
        }
        return;
    }
    switch (op) {
    case 0:
    case 6:
    case 7: {
        size_t k = 1 + t.draw(3);
        for (size_t i = 0; i < k; i++) {
            size_t q = t.draw(b.size());
            b[q] = static_cast<char>(b[q] ^ (1 << t.draw(8)));
        }
        count(C_f_bitflip);
        break;
    }
    case 1: {
        size_t n = len(p);
        int how = static_cast<int>(t.draw(4));
        Rng r(how == 0 ? t.seed() : 0);
        for (size_t i = 0; i < n; i++) b[p + i] = how == 0 ? static_cast<char>(r.below(256)) : how == 1 ? '\0' : how == 2 ? '\xff' : ' ';
        count(C_f_overwrite);
        break;
    }
    case 2:
    case 8: b.erase(p, len(p)), count(C_f_delete_range); break;
    case 3:
    case 9: {
        std::string r = b.substr(p, len(p));
        b.insert(t.draw(b.size() + 1), r);
        count(C_f_dup_range);
        break;
    }
    case 4: {
        size_t n = std::min(len(p), b.size() / 2);
        if (n == 0) break;
        size_t q = t.draw(b.size() - n + 1);
        if (p + n > b.size()) p = b.size() - n;
        if (q + n <= p || p + n <= q)
            for (size_t i = 0; i < n; i++) std::swap(b[p + i], b[q + i]);
        count(C_f_swap_range);
        break;
    }
    default: b.resize(p), count(C_f_truncate); break;
    }
}

void c07(Ctx& c)
{
    fresh_world(c);
    gen::DocOpt o;
    o.content.max_size = 2;
    Doc doc = some_document(c, o, 40);
    log_bytes("document", doc.bytes);
    c.note(shape(doc.spec));
    size_t variants = doc.bytes.size() > 20000 ? 2 : 5;
    for (size_t v = 0; v < variants; v++) {
        std::string b = doc.bytes;
        size_t k = 1 + (c.t.draw(3) == 2 ? c.t.draw(4) : 0);
        for (size_t i = 0; i < k; i++) damage(c, doc, b);
        log_bytes("damaged", b);
        if (v == 0) c.sample = model::summary(doc.spec) + " | " + std::to_string(k) + " damages, " + std::to_string(b.size()) + " bytes left";
        ops::In in[2] = {ops::draw_source(c.t), ops::draw_source(c.t)};
        Call l[2];
        uint64_t budget_fired[2];
        for (int i = 0; i < 2; i++) {
            g_fill = i == 0 ? 0xA5 : 0x00;
            ops::g_stack_fill = i == 0 ? 0xFF : 0x00;
            ops::g_limit = 200000000ull + 3000ull * b.size();
            tls.budget_max = 48ll << 20;
            uint64_t before = tls.budget_fired;
            l[i] = ops::load(b, in[i]);
            tls.budget_max = 0;
            budget_fired[i] = tls.budget_fired - before;
            if (budget_fired[i]) count(C_f_mem_budget);
            log_call("load", l[i]);
            if (!l[i].threw) log_spec("loaded", l[i].spec);
            if (l[i].threw && !l[i].std_exc) violate(c, "foreign-exception", "the load threw something that is not a std::exception");
        }
        c.note(l[0].threw);
        count(l[0].threw ? C_p_corrupt_threw : C_p_corrupt_returned);
        if (!budget_fired[0] && !budget_fired[1]) {
            if (l[0].threw != l[1].threw)
                violate(c, "not-a-function", "one delivery " + l[0].outcome() + ", another " + l[1].outcome() + " | " + ops::describe(in[0]) + " | " + ops::describe(in[1]));
            if (!l[0].threw) {
                std::string d = model::diff(l[0].spec, l[1].spec);
                if (!d.empty()) violate(c, "not-a-function", "two loads of the same bytes differ: " + d + " | " + ops::describe(in[0]) + " | " + ops::describe(in[1]));
            }
        }
        for (int i = 0; i < 2; i++) {
            if (l[i].threw) continue;
            std::string d = model::consistent(l[i].spec);
            if (!d.empty()) violate(c, "inconsistent", "the returned spec is inconsistent: " + d);
            if (i == 0) {
                // It can be saved, in its own and in the other formats.
                for (int f = 0; f < 4; f++) {
                    MshSpec s = l[0].spec;
                    s.mesh_format.version = f & 1 ? "2.2" : "4.1";
                    s.mesh_format.file_type = f >> 1;
                    tls.budget_max = 256ll << 20;
                    Call sv = ops::plain_save(s);
                    tls.budget_max = 0;
                    log_call("save", sv);
                    if (sv.threw && !sv.std_exc) violate(c, "foreign-exception", "saving threw something that is not a std::exception");
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ C08
bool is_prefix(const std::string& p, const std::string& whole) { return p.size() <= whole.size() && whole.compare(0, p.size(), p) == 0; }

void c08(Ctx& c)
{
    fresh_world(c);
    gen::Opt o;
    o.max_size = 4;
    MshSpec spec = gen::spec(c.t, o);
    align(c, spec);
    const uint64_t dig = model::digest(spec);
    log_spec("spec", spec);
    c.note(shape(spec));
    Call ref = ops::plain_save(spec);
    log_call("reference", ref);
    if (!ref.ok()) violate(c, "save-failed", "saving a valid spec " + ref.outcome());
    const std::string& whole = ref.bytes;
    const int64_t n = static_cast<int64_t>(whole.size());
    log_bytes("reference", whole);
    size_t reps = n > 30000 ? 2 : 5;
    for (size_t r = 0; r < reps; r++) {
        if (c.t.chance(1, 10)) { // the sink cannot be used at all
            int how = static_cast<int>(c.t.draw(5));
            c.note(static_cast<uint64_t>(100 + how));
            Call s;
            std::string stored;
            if (how == 0) {
                FsPlan p;
                static const int e[] = {13, 28, 24, 30};
                p.open_errno = e[c.t.draw(4)];
                raw_unlink(ops::path_of("out.msh"));
                s = ops::save_path(ops::path_of("out.msh"), spec, &p);
            } else if (how == 1) {
                count(C_f_open_fail);
                s = ops::save_path(ops::path_of("missing/out.msh"), spec);
            } else if (how == 2) {
                count(C_f_open_fail);
                s = ops::save_path(scratch_dir(), spec);
                s.bytes.clear();
            } else {
                count(C_f_entry_failed_stream);
                SimOut buf{OutPlan()};
                std::ostream os(&buf);
                os.setstate(how == 3 ? std::ios::failbit : std::ios::badbit);
                s = ops::save_stream(os, spec);
                s.bytes = buf.stored;
            }
            log_call("save to unusable sink", s);
            if (s.ok()) violate(c, "failure-unreported", "saving to an unusable sink (kind " + std::to_string(how) + ") reported success");
            if (how >= 3 && !is_prefix(s.bytes, whole)) violate(c, "not-a-prefix", "a failed stream received bytes that are no prefix of the document");
            continue;
        }
        ops::Out out = ops::draw_sink(c.t);
        if (out.medium == 2) out.medium = 1;
        int kind = static_cast<int>(c.t.draw(6)); // 0 none (only short/interrupted transfers), 1.. faults
        int64_t at;
        switch (c.t.draw(4)) {
        case 0: at = static_cast<int64_t>(c.t.draw(static_cast<uint64_t>(n))); break;
        case 1: at = n - 1 - static_cast<int64_t>(c.t.draw(std::min<uint64_t>(64, static_cast<uint64_t>(n)))); break;
        case 2: at = static_cast<int64_t>(c.t.draw(std::min<uint64_t>(64, static_cast<uint64_t>(n)))); break;
        default: {
            int64_t blk = 8191 * static_cast<int64_t>(c.t.draw(static_cast<uint64_t>(n / 8191 + 1)));
            at = std::max<int64_t>(0, std::min(n - 1, blk + static_cast<int64_t>(c.t.draw(3)) - 1));
        }
        }
        if (at < 0) at = 0;
        bool sticky = c.t.draw(3) != 2;
        if (out.medium == 0) {
            out.out.sticky = sticky;
            if (kind == 1 || kind == 2) out.out.fail_at = at;
            if (kind == 3 || kind == 4) out.out.fail_at = at, out.out.throws = true;
            if (kind == 5) out.out.sync_fail = static_cast<int64_t>(c.t.draw(3) ? c.t.draw(static_cast<uint64_t>(n) / 20 + 2) : c.t.draw(3)), out.out.throws = c.t.draw(2) == 1;
        } else {
            static const int errs[] = {28, 5, 122, 27};
            out.fs.write_sticky = sticky;
            if (kind >= 1 && kind <= 4) out.fs.write_fail_at = at, out.fs.write_errno = errs[c.t.draw(4)];
            if (kind == 5) {
                out.fs.close_errno = c.t.draw(2) ? 28 : 5;
                // steps the library does not take now, but whose failure would count
                if (c.t.draw(2)) out.fs.sync_errno = 5;
                if (c.t.draw(2)) out.fs.rename_errno = c.t.draw(2) ? 13 : 28;
            }
            out.has_old = c.t.draw(2) == 1;
            if (out.has_old) out.old_file = std::string(1 + c.t.draw(2 * static_cast<uint64_t>(n)), 'o');
        }
        c.note(static_cast<uint64_t>(out.medium)), c.note(static_cast<uint64_t>(kind));
        if (r == 0) c.sample = model::summary(spec) + " " + std::to_string(n) + " bytes | " + ops::describe(out);
        Call s = ops::save(spec, out);
        log_call("save", s);
        log_bytes("stored", s.bytes);
        c.note(s.fired > 0), c.note(s.ok());
        std::string how = ops::describe(out) + " (" + std::to_string(n) + " byte document)";
        if (s.fired && s.ok()) violate(c, "failure-unreported", "a write, flush or close failed and saving reported success: " + how);
        if (!s.fired) {
            count(C_p_fault_not_reached);
            if (!s.ok()) violate(c, "save-failed", "no fault fired but the save " + s.outcome() + ": " + how);
            if (s.bytes != whole) violate(c, "bytes-lost", "the sink holds " + std::to_string(s.bytes.size()) + " bytes that are not the document: " + how);
        } else {
            bool old_ok = out.has_old && s.bytes == out.old_file;
            // After a passing error a file takes what was buffered once more when it is closed: the C++
            // library does that, so a prefix is only due when the error stays.
            if ((out.medium == 0 || sticky) && !old_ok && !is_prefix(s.bytes, whole))
                violate(c, "not-a-prefix", "after the failure the sink holds no prefix of the document: " + how);
        }
        if (model::digest(spec) != dig) violate(c, "spec-modified", "the save changed the spec");
    }
    ops::Out healthy = ops::draw_sink(c.t);
    Call h = ops::save(spec, healthy);
    log_call("healthy save", h);
    if (!h.ok() || h.bytes != whole) violate(c, "later-save", "a later save to a healthy sink differs or " + h.outcome());
}

// ------------------------------------------------------------------------------------------------ C09
void c09(Ctx& c)
{
    fresh_world(c);
    const bool save = c.t.draw(2) == 1;
    gen::Opt o;
    o.max_size = 2;
    ops::In in;
    ops::Out out;
    Doc doc;
    MshSpec spec;
    if (save) {
        spec = gen::spec(c.t, o);
        out = ops::draw_sink(c.t);
        log_spec("spec", spec);
        c.note(shape(spec));
    } else {
        gen::DocOpt d;
        d.content = o;
        doc = some_document(c, d, 40);
        in = ops::draw_source(c.t);
        log_bytes("document", doc.bytes);
        c.note(shape(doc.spec));
    }
    const uint64_t dig = model::digest(spec);
    auto run = [&]() { return save ? ops::save(spec, out) : ops::load(doc.bytes, in); };
    auto right = [&](const Call& r, const Call& ref) -> std::string {
        if (save) return r.bytes == ref.bytes ? "" : "the bytes differ";
        return model::diff(ref.spec, r.spec);
    };
    Call ref = run();
    log_call("reference", ref);
    if (!ref.ok()) violate(c, "reference", "without faults the call " + ref.outcome());
    c.note(save), c.note(static_cast<uint64_t>(save ? out.medium : in.medium)), c.note(ops::bucket(static_cast<uint64_t>(ref.allocs)));
    const uint64_t n = static_cast<uint64_t>(ref.allocs);
    c.sample = (save ? "save " + model::summary(spec) + " | " + ops::describe(out) : "load " + model::summary(doc.spec) + " | " + ops::describe(in)) +
               " | " + std::to_string(n) + " allocations";
    size_t reps = n == 0 ? 1 : n <= 12 ? n : 8;
    for (size_t r = 0; r < reps; r++) {
        uint64_t idx = n <= 12 ? r : c.t.draw(3) == 0 ? n - 1 - c.t.draw(std::min<uint64_t>(n, 6)) : c.t.draw(n);
        int mode = static_cast<int>(c.t.draw(4)); // 0,1 once 2 persistent 3 by size
        tls.alloc_index = 0;
        tls.fired = 0;
        if (mode == 3) {
            static const size_t sz[] = {17, 32, 100, 1000, 4096, 20000};
            tls.fail_size = sz[c.t.draw(6)];
        } else {
            tls.fail_at = static_cast<int64_t>(idx);
            tls.fail_persistent = mode == 2;
        }
        Call f = run();
        tls.fail_at = -1;
        tls.fail_persistent = false;
        tls.fail_size = 0;
        const uint64_t fired = tls.fired;
        tls.fired = 0;
        count(mode == 2 ? C_f_alloc_fail_persistent : mode == 3 ? C_f_alloc_fail_size : C_f_alloc_fail, fired ? 1 : 0);
        logf("allocation %llu of %llu fails, mode %d, fired %llu", static_cast<unsigned long long>(idx), static_cast<unsigned long long>(n), mode,
            static_cast<unsigned long long>(fired));
        log_call("call", f);
        c.note(f.ok()), c.note(fired > 0);
        if (f.ok()) {
            std::string d = right(f, ref);
            if (!d.empty())
                violate(c, "partial-success", std::string(save ? "save" : "load") + " reported success after allocation " + std::to_string(idx) + " of " +
                        std::to_string(n) + " failed (mode " + std::to_string(mode) + "), but " + d);
        } else if (!fired)
            violate(c, "failed-without-fault", "no allocation failed but the call " + f.outcome());
        if (save && model::digest(spec) != dig) violate(c, "spec-modified", "the save changed the spec");
        if (fired && (r == 0 || c.t.draw(3) == 0)) {
            Call again = run();
            count(C_p_oom_recovered);
            if (!again.ok()) violate(c, "no-recovery", "with memory available again the call " + again.outcome());
            std::string d = right(again, ref);
            if (!d.empty()) violate(c, "no-recovery", "with memory available again the result differs: " + d);
        }
    }
}

// ------------------------------------------------------------------------------------------------ C10
struct Job
{
    // 0 load from memory, 1 load from file, 2 save to memory, 3 save to own file, 4 load bad, 5 load failing source, 6 save failing sink, 7 validate, 8 save what cannot be saved,
    // 9 load and 10 save out of memory, 11 load from a file that cannot be read, 12 save to a file that cannot be written
    int kind = 0;
    size_t item = 0;
    sim::FsPlan fs;
    int64_t fail_at = 0;
    bool persistent = false;
    sim::InPlan in;
    sim::OutPlan out;
    std::string path;
};
struct JobResult
{
    Call c;
    std::string stored;
};

void run_job(const Job& j, const std::vector<Doc>& docs, const std::vector<MshSpec>& specs, const std::vector<std::string>& bad, JobResult& r)
{
    if (j.kind == 9 || j.kind == 10) {
        tls.fail_at = tls.alloc_index + j.fail_at;
        tls.fail_persistent = j.persistent;
        tls.fired = 0;
    }
    FsPlan own = j.fs; // the faults of this thread only
    if (j.kind == 11 || j.kind == 12) tls.plan = &own;
    switch (j.kind) {
    case 0:
    case 5:
    case 9: {
        SimIn buf(docs[j.item].bytes, j.in);
        std::istream s(&buf);
        r.c = ops::load_stream(s);
        r.c.fired = buf.fired;
        break;
    }
    case 1:
    case 11: {
        ops::enter(r.c, [&] {
            MshSpec s = mshio::load_msh(j.path);
            Outside o;
            r.c.spec = std::move(s);
        });
        break;
    }
    case 4: {
        SimIn buf(bad[j.item], j.in);
        std::istream s(&buf);
        r.c = ops::load_stream(s);
        break;
    }
    case 2:
    case 6:
    case 8:
    case 10: {
        SimOut buf(j.out);
        std::ostream s(&buf);
        r.c = ops::save_stream(s, specs[j.item]);
        s.flush();
        r.c.stream_failed = s.fail();
        r.stored = buf.stored;
        break;
    }
    case 3:
    case 12: {
        ops::enter(r.c, [&] { mshio::save_msh(j.path, specs[j.item]); });
        r.stored = raw_read(j.path);
        break;
    }
    default:
        if (!has_empty_element_block(specs[j.item])) // see C03
            ops::enter(r.c, [&] { mshio::validate_spec(specs[j.item]); });
        break;
    }
    if (j.kind == 9 || j.kind == 10) {
        if (tls.fired) count(C_f_alloc_fail);
        r.c.fired = tls.fired;
        tls.fail_at = -1;
        tls.fail_persistent = false;
        tls.fired = 0;
    }
    tls.plan = nullptr;
    if (j.kind == 11 || j.kind == 12) r.c.fired = own.read_fired + own.write_fired + own.open_fired + own.close_fired;
}

// The memory of a spec that several threads use.
template <typename T>
void watch(const std::vector<T>& v) { race_watch(v.data(), v.size() * sizeof(T)); }
void watch_spec(const MshSpec& s)
{
    race_watch(&s, sizeof s);
    watch(s.nodes.entity_blocks), watch(s.elements.entity_blocks);
    for (auto& b : s.nodes.entity_blocks) watch(b.tags), watch(b.data);
    for (auto& b : s.elements.entity_blocks) watch(b.data);
    watch(s.entities.points), watch(s.entities.curves), watch(s.entities.surfaces), watch(s.entities.volumes);
    for (auto& e : s.entities.points) watch(e.physical_group_tags);
    for (auto& e : s.entities.curves) watch(e.physical_group_tags), watch(e.boundary_point_tags);
    for (auto& e : s.entities.surfaces) watch(e.physical_group_tags), watch(e.boundary_curve_tags);
    for (auto& e : s.entities.volumes) watch(e.physical_group_tags), watch(e.boundary_surface_tags);
    watch(s.physical_groups);
    for (auto* v : {&s.node_data, &s.element_data, &s.element_node_data}) {
        watch(*v);
        for (auto& d : *v) {
            watch(d.header.string_tags), watch(d.header.real_tags), watch(d.header.int_tags), watch(d.entries);
            for (auto& e : d.entries) watch(e.data);
        }
    }
}

void c10(Ctx& c)
{
    fresh_world(c);
    Tape& t = c.t;
    gen::Opt o;
    o.max_size = t.chance(1, 4) ? 2 : 1;
    std::vector<Doc> docs;
    std::vector<MshSpec> specs;
    std::vector<std::string> bad;
    size_t nd = 1 + t.draw(3), ns = 1 + t.draw(2);
    for (size_t i = 0; i < nd; i++) {
        gen::DocOpt d;
        d.content = o;
        d.foreign = t.draw(2) == 1;
        docs.push_back(gen::document(t, d));
    }
    for (size_t i = 0; i < ns; i++) specs.push_back(gen::spec(t, o));
    add_siblings(t, docs, specs);
    ns = specs.size();
    for (size_t i = 0; i < 3; i++) {
        std::string b = docs[0].bytes;
        switch (t.draw(6)) {
        case 0: b.resize(b.size() / 2); break;
        case 1: b = "$MeshFormat\n" + std::to_string(i + 5) + ".5 0 8\n$EndMeshFormat\n"; break;
        case 2: b = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Elements\n1 0 0 0\n2 1 " + std::to_string(32 + t.draw(100000)) + " 0\n$EndElements\n"; break;
        case 3: b = "$MeshFormat\n4.1 0 " + std::to_string(9 + t.draw(1000)) + "\n$EndMeshFormat\n"; break;
        case 4: b = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$NodeData\n1\n\"v\"\n0\n1\n0\n$EndNodeData\n"; break;
        default: damage(c, docs[0], b);
        }
        bad.push_back(b);
    }
    MshSpec odd = specs[0]; // cannot be saved
    if (t.draw(2))
        odd.mesh_format.version = "4." + std::to_string(2 + t.draw(100));
    else {
        odd = MshSpec();
        odd.elements.num_entity_blocks = odd.elements.num_elements = 1;
        odd.elements.entity_blocks.resize(1);
        odd.elements.entity_blocks[0].element_type = 32 + static_cast<int>(t.draw(1000));
        odd.elements.entity_blocks[0].num_elements_in_block = 1;
        odd.elements.entity_blocks[0].data.resize(100);
    }
    specs.push_back(odd);
    const bool crowd = t.chance(1, 3); // many calls that fail
    std::string shared_file = ops::path_of("shared.msh");
    raw_write(shared_file, docs[0].bytes);

    auto own_name = [&](size_t k, size_t i) { // relative to the working directory, there in full, or in another directory
        const std::string n = "own" + std::to_string(k) + "_" + std::to_string(i) + ".msh";
        const size_t how = t.draw(4);
        return how < 2 ? ops::path_of(n.c_str()) : how == 2 ? n : ops::path_of(("sub/" + n).c_str());
    };
    size_t nt = 2 + t.draw(3);
    std::vector<std::vector<Job>> jobs(nt);
    size_t shared_spec = 0, shared_file_users = 0;
    for (size_t k = 0; k < nt; k++) {
        size_t nj = 1 + t.draw(crowd ? 3 : 2);
        for (size_t i = 0; i < nj; i++) {
            Job j;
            static const int kinds[] = {0, 0, 2, 2, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 4, 4, 4, 8, 5, 6, 9, 11};
            j.kind = kinds[t.draw(crowd ? 23 : 15)];
            j.in = draw_in(t);
            j.out = draw_out(t);
            switch (j.kind) {
            case 0: j.item = t.draw(docs.size()); break;
            case 5:
                j.item = t.draw(docs.size());
                j.in.fail_at = static_cast<int64_t>(t.draw(docs[j.item].bytes.size() + 1));
                break;
            case 1:
                j.path = t.draw(2) ? "shared.msh" : shared_file;
                shared_file_users++;
                break;
            case 4: j.item = t.draw(bad.size()); break;
            case 6:
                j.out.fail_at = static_cast<int64_t>(t.draw(300));
                j.out.throws = t.draw(2) == 1;
                j.item = t.draw(ns);
                break;
            case 8: j.item = ns; break;
            case 9:
            case 10:
                j.item = t.draw(j.kind == 9 ? docs.size() : ns);
                j.fail_at = static_cast<int64_t>(t.draw(t.draw(2) ? 300 : 12));
                j.persistent = t.draw(3) == 2;
                break;
            case 11:
                j.path = t.draw(2) ? "shared.msh" : shared_file;
                shared_file_users++;
                if (t.chance(1, 6))
                    j.fs.open_errno = 24;
                else
                    j.fs.read_fail_at = static_cast<int64_t>(t.draw(docs[0].bytes.size() + 1));
                break;
            case 12:
                j.path = own_name(k, i);
                j.item = t.draw(ns);
                switch (t.draw(4)) {
                case 0: j.fs.open_errno = 13; break;
                case 1: j.fs.close_errno = 5; break;
                default: j.fs.write_fail_at = static_cast<int64_t>(t.draw(400));
                }
                break;
            case 3: j.path = own_name(k, i); // fallthrough
            default:
                j.item = t.draw(ns);
                shared_spec++;
            }
            c.note(static_cast<uint64_t>(j.kind));
            jobs[k].push_back(j);
        }
    }
    if (shared_spec > 1) count(C_p_shared_spec);
    if (shared_file_users > 1) count(C_p_shared_file);
    std::vector<uint64_t> digs;
    for (auto& s : specs) digs.push_back(model::digest(s));
    draw_fs(t, fs);
    c.sample = std::to_string(nt) + " threads";
    for (auto& v : jobs) {
        c.sample += " [";
        for (auto& j : v) c.sample += " " + std::to_string(j.kind);
        c.sample += " ]";
    }
    struct Locale // all threads share the global locale; it is as set here, all the time
    {
        std::string c_name;
        std::locale cpp;
        bool set = false;
        explicit Locale(Tape& tape)
        {
            const std::vector<std::string>& names = sim::system_locales();
            const size_t how = tape.draw(8), k = tape.draw(4);
            if (names.empty() || how < 5) return;
            set = true;
            count(how == 7 ? C_f_locale_global : C_f_locale_c);
            if (how == 7)
                std::locale::global(std::locale(names[k % names.size()].c_str()));
            else
                setlocale(how == 6 ? LC_ALL : LC_NUMERIC, names[k % names.size()].c_str());
        }
        void begin() { c_name = setlocale(LC_ALL, nullptr), cpp = std::locale(); }
        bool same() const { return c_name == setlocale(LC_ALL, nullptr) && cpp == std::locale(); }
        ~Locale()
        {
            if (!set) return;
            std::locale::global(std::locale::classic());
            setlocale(LC_ALL, "C");
        }
    } global_locale(t);
    global_locale.begin();
    std::vector<std::vector<JobResult>> res(nt), solo(nt);
    for (size_t k = 0; k < nt; k++) res[k].resize(jobs[k].size()), solo[k].resize(jobs[k].size());
    tls.budget_max = 0;
    fs_begin();
    reset_steps(1500000000ull);
    uint64_t inter = 0;
    std::vector<std::function<void()>> fns;
    std::vector<Violation> bugs;
    for (size_t k = 0; k < nt; k++)
        fns.push_back([&, k] {
            for (size_t i = 0; i < jobs[k].size(); i++) run_job(jobs[k][i], docs, specs, bad, res[k][i]);
        });
    for (auto& s : specs) watch_spec(s);
    run_threads(t, fns, &inter);
    fs_end();
    const std::string race = race_end();
    count(C_steps_k, g_steps);
    c.note(inter);
    if (!race.empty()) violate(c, "data-race", race);
    if (!global_locale.same()) violate(c, "global-locale", "concurrent calls left another global locale behind");
    logf("interleaving %016llx", static_cast<unsigned long long>(inter));
    for (size_t k = 0; k < nt; k++)
        for (size_t i = 0; i < jobs[k].size(); i++) {
            const Job& j = jobs[k][i];
            const JobResult& r = res[k][i];
            log_call("concurrent", r.c);
            if (!r.c.threw && (j.kind <= 1 || j.kind == 4 || j.kind == 5 || j.kind == 9 || j.kind == 11)) log_spec("loaded", r.c.spec);
            if (j.kind == 3 || j.kind == 12) raw_unlink(j.path);
        }
    // Alone, one after the other.
    fs.on = true;
    for (size_t k = 0; k < nt; k++)
        for (size_t i = 0; i < jobs[k].size(); i++) run_job(jobs[k][i], docs, specs, bad, solo[k][i]);
    fs.on = false;
    for (size_t k = 0; k < nt; k++)
        for (size_t i = 0; i < jobs[k].size(); i++) {
            const Job& j = jobs[k][i];
            const Call &a = res[k][i].c, &b = solo[k][i].c;
            std::string who = "thread " + std::to_string(k) + " job " + std::to_string(i) + " kind " + std::to_string(j.kind);
            if (j.kind == 9 || j.kind == 10) { // which allocation is the n-th may depend on earlier calls
                if (!a.ok() && !a.fired) violate(c, "failed", who + ": no allocation failed but the call " + a.outcome());
                if (!a.ok()) continue;
                std::string d = j.kind == 9 ? model::check_load(docs[j.item], a.spec) : "";
                if (j.kind == 10) {
                    Job clean = j;
                    JobResult r;
                    clean.kind = 2;
                    run_job(clean, docs, specs, bad, r);
                    if (r.stored != res[k][i].stored) d = "the saved bytes differ from those saved alone";
                }
                if (!d.empty()) violate(c, "content", who + ", out of memory: " + d);
                continue;
            }
            if (a.fired && a.ok() && j.kind >= 11) violate(c, "failure-unreported", who + ": a failing file was not reported");
            if (a.threw != b.threw || a.stream_failed != b.stream_failed || a.type != b.type || a.what != b.what)
                violate(c, "outcome", who + ": concurrently " + a.outcome() + ", alone " + b.outcome());
            std::string d = model::diff(b.spec, a.spec);
            if (!d.empty()) violate(c, "result", who + ": the loaded spec differs from the one loaded alone: " + d);
            if (j.kind != 12 && res[k][i].stored != solo[k][i].stored) violate(c, "bytes", who + ": the saved bytes differ from those saved alone");
            if ((j.kind == 0 || j.kind == 1) && !a.threw) {
                d = model::check_load(docs[j.kind == 1 ? 0 : j.item], a.spec);
                if (!d.empty()) violate(c, "content", who + ": " + d);
            }
            if ((j.kind == 0 || j.kind == 1 || j.kind == 2 || j.kind == 3 || j.kind == 7) && !a.ok()) violate(c, "failed", who + " " + a.outcome());
        }
    for (size_t i = 0; i < specs.size(); i++)
        if (model::digest(specs[i]) != digs[i]) violate(c, "spec-modified", "a shared const spec was modified");
}

// ------------------------------------------------------------------------------------------------ C11
// Any version but those there are.
std::string odd_version(Tape& t)
{
    static const char* const known[] = {"4.1", "2.2"};
    std::string s = known[t.draw(2)];
    const std::string same = s;
    static const char chars[] = "0123456789.,-+eEabfx_";
    const char ch = chars[t.draw(sizeof chars - 1)];
    const size_t at = t.draw(s.size());
    switch (t.draw(4)) {
    case 0: s[at] = ch; break;
    case 1: s.insert(at, 1, ch); break;
    case 2: s.push_back(ch); break;
    default: s.erase(at, 1);
    }
    return s == "4.1" || s == "2.2" ? same + "0" : s;
}
// Any element type but those there are.
int32_t odd_type(Tape& t)
{
    int32_t x = t.draw(2) ? static_cast<int32_t>(t.draw(400)) - 100 : static_cast<int32_t>(static_cast<uint32_t>(t.draw(1ull << 32)));
    if (t.draw(2)) x = static_cast<int32_t>((static_cast<uint32_t>(x) << 8) | (1 + t.draw(31))); // its lowest byte would be one
    return x >= 1 && x <= 31 ? x + 32 : x;
}

// Makes a save of the spec due to fail: what it asks for does not exist.
std::string spoil(Tape& t, MshSpec& spec)
{
    count(C_f_unsupported);
    size_t how = t.draw(3);
    if (how == 1 && spec.elements.num_elements == 0) how = 0;
    if (how == 0) {
        spec.mesh_format.version = odd_version(t);
        return "version '" + spec.mesh_format.version + "'";
    }
    if (how == 1) {
        auto& b = spec.elements.entity_blocks[t.draw(spec.elements.entity_blocks.size())];
        b.element_type = odd_type(t);
        return "element type " + std::to_string(b.element_type);
    }
    spec.mesh_format.data_size = static_cast<int>(t.draw(8));
    return "data size " + std::to_string(spec.mesh_format.data_size);
}

void c11(Ctx& c)
{
    fresh_world(c);
    Tape& t = c.t;
    gen::Opt o;
    o.max_size = 2;
    // A pool of documents and specs, with the outcome each call must have.
    size_t nd = 1 + t.draw(3), ns = 1 + t.draw(3);
    std::vector<Doc> docs;
    std::vector<MshSpec> specs;
    for (size_t i = 0; i < nd; i++) {
        gen::DocOpt d;
        d.content = o;
        docs.push_back(gen::document(t, d));
    }
    for (size_t i = 0; i < ns; i++) specs.push_back(gen::spec(t, o));
    add_siblings(t, docs, specs);
    std::vector<uint64_t> digs;
    std::vector<std::string> first(specs.size());
    std::vector<std::string> first_bad(8);
    for (auto& s : specs) digs.push_back(model::digest(s));
    size_t n = 4 + t.draw(9);
    c.sample = "history:";
    for (size_t i = 0; i < n; i++) {
        static const char* const names[] = {"load", "save", "torn-load", "failing-load", "failing-save", "oom", "unsupported", "convert", "resave", "nested"};
        int op = static_cast<int>(t.draw(10));
        c.note(static_cast<uint64_t>(op));
        c.sample += std::string(" ") + names[op];
        logf("op %zu: %s", i, names[op]);
        const Doc& doc = docs[t.draw(docs.size())];
        size_t si = t.draw(specs.size());
        const MshSpec& spec = specs[si];
        switch (op) {
        case 0: {
            Call l = ops::load(doc.bytes, ops::draw_source(t));
            log_call("load", l);
            if (l.threw) violate(c, "load", "after " + std::to_string(i) + " calls, a load that works alone " + l.outcome());
            std::string d = model::check_load(doc, l.spec);
            if (!d.empty()) violate(c, "load", "after " + std::to_string(i) + " calls: " + d);
            break;
        }
        case 1: {
            ops::Out out = ops::draw_sink(t);
            out.keep = t.draw(2) == 1; // a save left something there, maybe a failed one
            Call s = ops::save(spec, out);
            log_call("save", s);
            if (!s.ok()) violate(c, "save", "after " + std::to_string(i) + " calls, a save that works alone " + s.outcome());
            if (first[si].empty()) {
                codec::Decoded d = codec::decode(s.bytes);
                Doc want = model::doc_of_spec(spec);
                if (want.v22()) want.spec.entities = mshio::Entities();
                std::string df = d.error.empty() ? model::check_load(want, d.doc.spec, false) : d.error;
                if (!df.empty()) violate(c, "save", "after " + std::to_string(i) + " calls the saved document is wrong: " + df);
                first[si] = s.bytes;
            } else if (first[si] != s.bytes)
                violate(c, "save", "after " + std::to_string(i) + " calls the same save gives other bytes");
            break;
        }
        case 2: {
            size_t cut = draw_cut(c, doc);
            Call l = ops::load(doc.bytes.substr(0, cut), ops::draw_source(t));
            log_call("torn load", l);
            check_torn(c, doc, cut, l, "document");
            break;
        }
        case 3: {
            ops::In in = ops::draw_source(t);
            const int64_t at = static_cast<int64_t>(t.draw(doc.bytes.size() + 1));
            if (in.medium == 0 || in.medium == 2) {
                in.medium = 0;
                in.in.fail_at = at;
                in.in.exc = static_cast<int>(t.draw(3));
            } else if (t.chance(1, 5))
                in.fs.open_errno = t.draw(2) ? 24 : 13;
            else
                in.fs.read_fail_at = at, in.fs.read_errno = t.draw(2) ? 5 : 116;
            Call l = ops::load(doc.bytes, in);
            log_call("failing load", l);
            if (l.fired && !l.threw) violate(c, "failing-load", "a failing source was not reported");
            break;
        }
        case 4: {
            ops::Out out = ops::draw_sink(t);
            const int64_t at = static_cast<int64_t>(t.draw(t.draw(3) ? 400 : 10000));
            out.keep = t.draw(2) == 1;
            if (out.medium == 0 || out.medium == 2) {
                out.medium = 0;
                out.out.fail_at = at;
                out.out.throws = t.draw(3) == 2;
            } else {
                const size_t how = t.draw(5);
                if (how == 3)
                    out.fs.open_errno = t.draw(2) ? 28 : 13;
                else if (how == 4)
                    out.fs.close_errno = 5;
                else
                    out.fs.write_fail_at = at, out.fs.write_errno = t.draw(2) ? 28 : 5;
            }
            Call s = ops::save(spec, out);
            log_call("failing save", s);
            if (s.fired && s.ok()) violate(c, "failing-save", "a failing sink was not reported");
            break;
        }
        case 5: {
            const int64_t at = static_cast<int64_t>(t.draw(t.draw(2) ? 200 : 20));
            bool sv = t.draw(2) == 1;
            const bool file = t.draw(2) == 1;
            const std::string name = file ? ops::draw_path(t, sv ? "out.msh" : "in.msh") : "";
            if (file && !sv) raw_write(name, doc.bytes);
            tls.alloc_index = 0;
            tls.fail_at = at;
            tls.fired = 0;
            Call k = sv ? file ? ops::save_path(name, spec) : ops::plain_save(spec) : file ? ops::load_path(name) : ops::load(doc.bytes, ops::In());
            tls.fail_at = -1;
            if (tls.fired) count(C_f_alloc_fail);
            log_call("oom", k);
            if (!sv && k.ok()) {
                std::string d = model::check_load(doc, k.spec);
                if (!d.empty()) violate(c, "oom", d);
            }
            break;
        }
        case 6: {
            static const char* const bad[] = {"$MeshFormat\n3.0 0 8\n$EndMeshFormat\n", "$MeshFormat\n4.1 0 4\n$EndMeshFormat\n",
                "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Entities\n0 0 0 0\n$EndEntities\n",
                "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Elements\n1 1 1 1\n2 1 77 1\n1 1 2 3\n$EndElements\n"};
            if (t.draw(3) == 2) {
                MshSpec odd = spec;
                const std::string what = spoil(t, odd);
                Call s = ops::save(odd, ops::draw_sink(t));
                log_call("unsupported save", s);
                if (!s.threw && what[0] != 'd') violate(c, "unsupported", "a save with " + what + " did not throw");
                break;
            }
            size_t k = t.draw(4);
            count(C_f_unsupported);
            Call l = ops::load(bad[k], ops::draw_source(t));
            log_call("unsupported", l);
            if (!l.threw) violate(c, "unsupported", "an unsupported document was accepted");
            if (first_bad[k].empty()) first_bad[k] = l.outcome();
            if (first_bad[k] != l.outcome()) violate(c, "unsupported", "the same refusal reads '" + l.outcome() + "' instead of '" + first_bad[k] + "'");
            break;
        }
        case 7: { // conversions
            MshSpec cur = spec;
            size_t hops = 1 + t.draw(4);
            count(C_p_converted);
            for (size_t h = 0; h < hops; h++) {
                int v = static_cast<int>(t.draw(4));
                cur.mesh_format.version = v & 1 ? "2.2" : "4.1";
                cur.mesh_format.file_type = v >> 1;
                if (!model::representable(cur)) {
                    Call s = ops::plain_save(cur);
                    if (s.ok()) {
                        Call l = ops::load(s.bytes, ops::In());
                        Doc want = model::doc_of_spec(cur);
                        if (want.v22()) want.spec.entities = mshio::Entities();
                        std::string d = l.threw ? "loading it " + l.outcome() : model::check_load(want, l.spec);
                        if (!d.empty()) violate(c, "convert", "a value the format has no room for was stored as another: " + d);
                    }
                    cur.mesh_format.file_type = 0;
                }
                Call s = ops::save(cur, ops::draw_sink(t));
                if (!s.ok()) violate(c, "convert", "saving hop " + std::to_string(h) + " " + s.outcome());
                Call l = ops::load(s.bytes, ops::draw_source(t));
                if (l.threw) violate(c, "convert", "loading hop " + std::to_string(h) + " " + l.outcome());
                Doc want = model::doc_of_spec(cur);
                if (want.v22()) want.spec.entities = mshio::Entities();
                std::string d = model::check_load(want, l.spec);
                if (!d.empty()) violate(c, "convert", "hop " + std::to_string(h) + " (" + model::summary(cur) + "): " + d);
                cur = l.spec;
            }
            log_spec("converted", cur);
            break;
        }
        case 9: { // the caller's stream itself makes a call while it serves one
            count(C_p_nested);
            const bool outer_save = t.draw(2) == 1, inner_save = t.draw(2) == 1;
            const Doc& doc2 = docs[t.draw(docs.size())];
            const MshSpec& spec2 = specs[t.draw(specs.size())];
            Call inner, outer;
            bool ran = false;
            const bool torn = !inner_save && t.chance(1, 4);
            auto call = [&] {
                ran = true;
                inner = inner_save ? ops::plain_save(spec2) : ops::load(torn ? doc2.bytes.substr(0, doc2.bytes.size() / 2) : doc2.bytes, ops::In());
            };
            std::string err;
            if (outer_save) {
                SimOut buf(draw_out(t));
                buf.hook = call, buf.hook_at = t.draw(t.draw(2) ? 4000 : 300);
                std::ostream s(&buf);
                outer = ops::save_stream(s, spec);
                if (outer.ok()) s.flush();
                if (!outer.ok() || !s) violate(c, "nested", "a save whose sink made another call " + outer.outcome());
                codec::Decoded d = codec::decode(buf.stored);
                Doc want = model::doc_of_spec(spec);
                if (want.v22()) want.spec.entities = mshio::Entities();
                err = d.error.empty() ? model::check_load(want, d.doc.spec, false) : d.error;
            } else {
                SimIn buf(doc.bytes, draw_in(t));
                buf.hook = call, buf.hook_at = t.draw(doc.bytes.size() + 1);
                std::istream s(&buf);
                outer = ops::load_stream(s);
                err = outer.threw ? outer.outcome() : model::check_load(doc, outer.spec);
            }
            log_call("outer", outer);
            if (!err.empty()) violate(c, "nested", std::string("a ") + (outer_save ? "save" : "load") + " whose stream made another call: " + err);
            if (!ran) break;
            log_call("inner", inner);
            if (inner_save) {
                codec::Decoded d = codec::decode(inner.bytes);
                Doc want = model::doc_of_spec(spec2);
                if (want.v22()) want.spec.entities = mshio::Entities();
                err = !inner.ok() ? inner.outcome() : d.error.empty() ? model::check_load(want, d.doc.spec, false) : d.error;
            } else if (!torn)
                err = inner.threw ? inner.outcome() : model::check_load(doc2, inner.spec);
            if (!err.empty()) violate(c, "nested", std::string("a ") + (inner_save ? "save" : "load") + " made by a stream serving another call: " + err);
            break;
        }
        default: { // what the library wrote, loaded and written again, loads as the same spec
            Call s1 = ops::plain_save(spec);
            if (!s1.ok()) violate(c, "resave", "save " + s1.outcome());
            Call l1 = ops::load(s1.bytes, ops::draw_source(t));
            if (l1.threw) violate(c, "resave", "load " + l1.outcome());
            Call s2 = ops::save(l1.spec, ops::draw_sink(t));
            if (!s2.ok()) violate(c, "resave", "second save " + s2.outcome());
            Call l2 = ops::load(s2.bytes, ops::draw_source(t));
            if (l2.threw) violate(c, "resave", "second load " + l2.outcome());
            std::string d = model::diff(l1.spec, l2.spec);
            if (!d.empty()) violate(c, "resave", "the re-saved document loads as another spec: " + d);
            break;
        }
        }
        for (size_t k = 0; k < specs.size(); k++)
            if (model::digest(specs[k]) != digs[k]) violate(c, "spec-modified", "a save changed the spec it was given");
        if (ops::g_source_changed) violate(c, "source-changed", "a load changed the file it read");
    }
}

// ------------------------------------------------------------------------------------------------ C12
struct Punct : std::numpunct<char>
{
    char dp, ts;
    std::string gr;
    Punct(char d, char s, std::string g) : dp(d), ts(s), gr(std::move(g)) {}
    char do_decimal_point() const override { return dp; }
    char do_thousands_sep() const override { return ts; }
    std::string do_grouping() const override { return gr; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};
struct OddSpaceFacet : std::ctype<char>
{
    static const mask* make(char extra, char less)
    {
        static mask t[4][table_size];
        static int used = 0;
        mask* m = t[used++ % 4];
        std::copy(classic_table(), classic_table() + table_size, m);
        m[static_cast<unsigned char>(extra)] |= space;
        if (less) m[static_cast<unsigned char>(less)] &= static_cast<mask>(~space);
        return m;
    }
    OddSpaceFacet(char extra, char less) : std::ctype<char>(make(extra, less)) {}
};
std::locale draw_locale(Tape& t)
{
    std::locale base = std::locale::classic();
    switch (t.draw(8)) {
    case 0: return base;
    case 6:
    case 7: { // as installed on the system; as the global locale it becomes the C library's, too
        const std::vector<std::string>& names = sim::system_locales();
        const size_t k = t.draw(4);
        if (names.empty()) return base;
        count(C_f_locale_system);
        return std::locale(names[k % names.size()].c_str());
    }
    case 1: return std::locale(base, new Punct(',', '.', "\3"));
    case 2: return std::locale(base, new Punct(',', ' ', ""));
    case 3: return std::locale(base, new Punct('.', ',', "\1"));
    case 4: return std::locale(base, new OddSpaceFacet('.', 0));
    default: return std::locale(std::locale(base, new Punct('.', '\'', "\3\2")), new OddSpaceFacet(',', '\n'));
    }
}
struct StreamState
{
    std::locale loc;
    std::ios::fmtflags flags;
    std::streamsize prec;
    char fill;
    std::ios::iostate mask;
    std::string punct;
    std::locale buf_loc;
};
void draw_state(Tape& t, std::ios& s)
{
    if (t.draw(3)) {
        s.imbue(draw_locale(t));
        count(C_f_locale_stream);
    }
    static const std::ios::fmtflags fl[] = {std::ios::skipws | std::ios::dec, std::ios::hex | std::ios::skipws, std::ios::oct | std::ios::showbase | std::ios::skipws,
        std::ios::dec | std::ios::showpos | std::ios::skipws, std::ios::dec | std::ios::scientific | std::ios::uppercase | std::ios::skipws,
        std::ios::dec | std::ios::fixed | std::ios::skipws, std::ios::dec, std::ios::hex | std::ios::showbase | std::ios::uppercase | std::ios::boolalpha,
        std::ios::dec | std::ios::unitbuf | std::ios::skipws, std::ios::fmtflags(), std::ios::dec | std::ios::left | std::ios::showpoint | std::ios::skipws,
        std::ios::dec | std::ios::fixed | std::ios::scientific | std::ios::skipws};
    size_t f = t.draw(12);
    if (f) {
        s.flags(fl[f]);
        count(C_f_stream_flags);
    }
    static const int pr[] = {6, 0, 3, 17, 40, 1};
    s.precision(pr[t.draw(6)]);
    if (t.chance(1, 3)) {
        s.width(static_cast<std::streamsize>(1 + t.draw(40)));
        count(C_p_field_width);
    }
    static const char fills[] = {' ', '*', '0', '\n'};
    s.fill(fills[t.draw(4)]);
    static const std::ios::iostate mk[] = {std::ios::goodbit, std::ios::badbit, std::ios::failbit, std::ios::badbit | std::ios::failbit};
    size_t m = t.draw(4);
    if (m) {
        s.exceptions(mk[m]);
        count(C_f_exception_mask);
    }
}
StreamState capture(const std::ios& s) { return {s.getloc(), s.flags(), s.precision(), s.fill(), s.exceptions(), "", s.rdbuf() ? s.rdbuf()->getloc() : std::locale()}; }
std::string changed(const StreamState& a, const std::ios& s)
{
    if (!(a.loc == s.getloc())) return "locale";
    if (a.flags != s.flags()) return "format flags";
    if (a.prec != s.precision()) return "precision";
    if (a.fill != s.fill()) return "fill character";
    if (a.mask != s.exceptions()) return "exception mask";
    if (s.rdbuf() && !(a.buf_loc == s.rdbuf()->getloc())) return "locale of the stream buffer";
    return "";
}
struct GlobalLocale
{
    std::locale old;
    explicit GlobalLocale(const std::locale& l) : old(std::locale::global(l)) {}
    ~GlobalLocale()
    {
        std::locale::global(old);
        setlocale(LC_ALL, "C");
    }
};

// What belongs to the process or to the caller and no call has any business changing.
std::vector<std::pair<const char*, std::string>> ambient()
{
    std::vector<std::pair<const char*, std::string>> a;
    auto num = [](long long v) { return std::to_string(v); };
    auto ptr = [](const void* q) { return std::to_string(reinterpret_cast<uintptr_t>(q)); };
    char cwd[4096];
    a.emplace_back("working directory", getcwd(cwd, sizeof cwd) ? cwd : "?");
    const mode_t m = umask(022);
    umask(m);
    a.emplace_back("file mode mask", num(m));
    a.emplace_back("rounding mode", num(fegetround()));
    a.emplace_back("floating-point control word", num(__builtin_ia32_stmxcsr() & ~0x3fu));
    a.emplace_back("floating-point traps", num(fegetexcept()));
    std::ios* const streams[] = {&std::cin, &std::cout, &std::cerr, &std::clog};
    for (std::ios* st : streams) {
        if (!st) continue;
        a.emplace_back("state of a standard stream", num(st->flags()) + " " + num(st->precision()) + " " + num(st->fill()) + " " + num(st->exceptions()) + " " + num(st->rdstate()) + " " +
            ptr(st->tie()) + " " + ptr(st->rdbuf()) + " " + st->getloc().name());
    }
    a.emplace_back("locale of the thread", ptr(uselocale(nullptr)));
    a.emplace_back("coupling of the standard streams to stdio", num(std::ios::sync_with_stdio(true)));
    uint64_t h = 0;
    for (char** e = environ; e && *e; e++) h = fnv(*e, strlen(*e) + 1, h);
    a.emplace_back("environment", num(static_cast<long long>(h)));
    h = 0;
    for (int sig = 1; sig < 32; sig++) {
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sigaction(sig, nullptr, &sa);
        h = fnv(&sa.sa_handler, sizeof sa.sa_handler, h);
        h = fnv(&sa.sa_flags, sizeof sa.sa_flags, h);
    }
    sigset_t set;
    sigemptyset(&set);
    pthread_sigmask(SIG_SETMASK, nullptr, &set);
    for (int sig = 1; sig < 65; sig++) h = h * 3 + static_cast<uint64_t>(sigismember(&set, sig) == 1);
    a.emplace_back("signal handling", num(static_cast<long long>(h)));
    // The state of rand(): a table in front of which its position is kept.
    static char other_state[128];
    static const char* initialised = initstate(1, other_state, sizeof other_state);
    if (initialised && initialised != other_state) setstate(const_cast<char*>(initialised)), initialised = other_state;
    char* const random_state = setstate(other_state);
    h = fnv(random_state, 128, 0);
    setstate(random_state);
    a.emplace_back("random numbers", num(static_cast<long long>(h)));
    h = 0;
    for (int k = 0; k < 16; k++) {
        struct rlimit l;
        memset(&l, 0, sizeof l);
        getrlimit(static_cast<__rlimit_resource>(k), &l);
        h = fnv(&l, sizeof l, h);
    }
    a.emplace_back("resource limits", num(static_cast<long long>(h)));
    h = 0;
    for (__itimer_which k : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) {
        struct itimerval v;
        memset(&v, 0, sizeof v);
        getitimer(k, &v);
        h = h * 3 + (v.it_value.tv_sec || v.it_value.tv_usec);
    }
    a.emplace_back("timers", num(static_cast<long long>(h)));
    h = 0;
    for (int fd = 0; fd < 3; fd++) {
        struct stat st;
        memset(&st, 0, sizeof st);
        fstat(fd, &st);
        h = fnv(&st.st_ino, sizeof st.st_ino, h);
        const int fl = fcntl(fd, F_GETFL), fdfl = fcntl(fd, F_GETFD);
        h = fnv(&fl, sizeof fl, h), h = fnv(&fdfl, sizeof fdfl, h);
    }
    a.emplace_back("standard descriptors", num(static_cast<long long>(h)));
    char name[17] = {0};
    prctl(PR_GET_NAME, name);
    a.emplace_back("thread name or priority", std::string(name) + num(getpriority(PRIO_PROCESS, 0)) + num(prctl(PR_GET_DUMPABLE)));
    a.emplace_back("terminate or new handler", ptr(reinterpret_cast<void*>(std::get_terminate())) + " " + ptr(reinterpret_cast<void*>(std::get_new_handler())));
    return a;
}

std::string ambient_diff(const std::vector<std::pair<const char*, std::string>>& before)
{
    const auto after = ambient();
    for (size_t i = 0; i < before.size(); i++)
        if (before[i].second != after[i].second) return before[i].first;
    return "";
}
// The standard streams as the program may have left them; by default as they are at its start.
void set_standard_streams(Tape* t)
{
    static const std::ios::fmtflags fl[] = {std::ios::dec | std::ios::skipws, std::ios::hex | std::ios::showbase, std::ios::oct | std::ios::skipws,
        std::ios::dec | std::ios::scientific | std::ios::boolalpha, std::ios::fmtflags()};
    for (std::ios* s : {static_cast<std::ios*>(&std::cin), static_cast<std::ios*>(&std::cout), static_cast<std::ios*>(&std::cerr), static_cast<std::ios*>(&std::clog)}) {
        const size_t k = t && t->chance(1, 3) ? t->draw(5) : 0;
        s->flags(fl[k] | (s == &std::cerr ? std::ios::unitbuf : std::ios::fmtflags()));
        s->precision(k ? 3 : 6);
        s->fill(k > 2 ? '0' : ' ');
        s->exceptions(std::ios::goodbit);
        s->clear();
    }
}

void c12(Ctx& c)
{
    fresh_world(c);
    scratch_dir(); // these two set up the process: directory, LOCPATH
    sim::system_locales();
    Tape& t = c.t;
    gen::Opt o;
    o.max_size = 3;
    const bool save = t.draw(2) == 1;
    MshSpec spec;
    Doc doc;
    std::string bytes;
    bool good_doc = true, good_spec = true;
    if (save) {
        o.allow_unrepresentable = t.chance(1, 8);
        spec = gen::spec(t, o);
        good_spec = model::representable(spec);
        if (t.chance(1, 8)) {
            spoil(t, spec);
            good_spec = false;
        }
        log_spec("spec", spec);
        c.note(shape(spec));
    } else {
        gen::DocOpt d;
        d.content = o;
        doc = some_document(c, d, 40);
        bytes = doc.bytes;
        if (t.chance(1, 4)) {
            good_doc = false;
            if (t.draw(2))
                bytes.resize(draw_cut(c, doc));
            else
                damage(c, doc, bytes);
        }
        log_bytes("document", bytes);
        c.note(shape(doc.spec));
    }
    tls.budget_max = good_doc ? 0 : 64ll << 20;
    ops::g_limit = 200000000ull + 3000ull * bytes.size();
    g_fill = 0xA5, ops::g_stack_fill = 0xA5;
    c.sample = std::string(save ? "save " + model::summary(spec) : "load " + model::summary(doc.spec)) + (good_doc ? "" : " damaged");
    set_standard_streams(nullptr);
    const auto at_first = ambient();
    Call ref = save ? ops::plain_save(spec) : ops::load(bytes, ops::In());
    const std::string first_change = ambient_diff(at_first);
    if (!first_change.empty()) violate(c, "process-state", "the call changed what belongs to the process: " + first_change);
    uint64_t budget = tls.budget_fired;
    log_call("reference", ref);
    if (save && good_spec && !ref.ok()) violate(c, "reference", "saving a valid spec " + ref.outcome());
    c.note(save), c.note(ref.ok());
    size_t reps = 3;
    for (size_t r = 0; r < reps; r++) {
        static const unsigned char fills[] = {0x00, 0xFF, 0x7F, 0xA5};
        g_fill = fills[t.draw(4)], ops::g_stack_fill = fills[t.draw(4)];
        count(C_f_heap_pattern);
        const bool g = t.draw(2) == 1;
        std::locale gl = g ? draw_locale(t) : std::locale::classic();
        if (g) count(C_f_locale_global);
        const int medium = static_cast<int>(t.draw(3)); // 0 simulated stream, 1 file name, 2 string stream
        c.note(g), c.note(static_cast<uint64_t>(medium));
        if (r == 0) c.sample = std::string(save ? "save " + model::summary(spec) : "load " + model::summary(doc.spec)) + (good_doc ? "" : " damaged") + " | medium " + std::to_string(medium) + (g ? " under a global locale" : "");
        Call k;
        std::string ch;
        bool global_changed = false;
        std::string ambient_change;
        // A call that fails must leave everything as it was, too.
        const int trouble = t.chance(1, 4) ? 1 + static_cast<int>(t.draw(3)) : 0;
        FsPlan plan;
        InPlan in_plan;
        OutPlan out_plan;
        if (trouble == 1) { // the medium
            const int64_t at = static_cast<int64_t>(t.draw(save ? 2000 : bytes.size() + 1));
            in_plan.fail_at = out_plan.fail_at = plan.read_fail_at = plan.write_fail_at = at;
            in_plan.exc = static_cast<int>(t.draw(2));
            out_plan.throws = t.draw(2) == 1;
            if (t.chance(1, 5)) plan.open_errno = t.draw(2) ? 24 : 13;
            if (t.chance(1, 5)) plan.close_errno = 5;
        }
        {
            GlobalLocale guard(gl);
            if (t.chance(1, 5) && !sim::system_locales().empty()) { // the C library's alone
                const std::vector<std::string>& names = sim::system_locales();
                setlocale(t.draw(2) ? LC_ALL : LC_NUMERIC, names[t.draw(4) % names.size()].c_str());
                count(C_f_locale_c);
            }
            const std::string c_locale = setlocale(LC_ALL, nullptr);
            set_standard_streams(&t);
            const auto before = ambient();
            if (trouble >= 2) {
                tls.alloc_index = 0;
                tls.fail_at = static_cast<int64_t>(t.draw(t.draw(2) ? 400 : 20));
                tls.fail_persistent = trouble == 3;
            }
            const int64_t fail_at = tls.fail_at;
            if (save && medium == 1) {
                k = ops::save_path(ops::path_of("out.msh"), spec, &plan);
            } else if (save) {
                tls.fail_at = -1;
                OutPlan op = draw_out(t);
                op.fail_at = out_plan.fail_at, op.throws = out_plan.throws;
                SimOut sb{op};
                std::stringbuf str;
                std::ostream os(medium == 0 ? static_cast<std::streambuf*>(&sb) : &str);
                draw_state(t, os);
                StreamState st = capture(os);
                tls.fail_at = fail_at;
                tls.alloc_index = 0;
                k = ops::save_stream(os, spec);
                tls.fail_at = -1;
                ch = changed(st, os);
                k.fired = sb.fired;
                if (!sb.fired) {
                    os.exceptions(std::ios::goodbit);
                    os.flush();
                }
                k.bytes = medium == 0 ? sb.stored : str.str();
            } else if (medium == 1) {
                tls.fail_at = -1;
                std::string p = ops::path_of("in.msh");
                raw_write(p, bytes);
                tls.fail_at = fail_at;
                tls.alloc_index = 0;
                k = ops::load_path(p, &plan);
            } else {
                tls.fail_at = -1;
                InPlan ip = draw_in(t);
                ip.fail_at = in_plan.fail_at, ip.exc = in_plan.exc;
                SimIn sb(bytes, ip);
                std::stringbuf str(bytes);
                std::istream is(medium == 0 ? static_cast<std::streambuf*>(&sb) : &str);
                draw_state(t, is);
                StreamState st = capture(is);
                tls.fail_at = fail_at;
                tls.alloc_index = 0;
                k = ops::load_stream(is);
                tls.fail_at = -1;
                ch = changed(st, is);
                k.fired = sb.fired;
            }
            if (trouble >= 2) {
                tls.fail_at = -1;
                tls.fail_persistent = false;
                k.fired = tls.fired;
                if (tls.fired) count(trouble == 3 ? C_f_alloc_fail_persistent : C_f_alloc_fail);
                tls.fired = 0;
            }
            ambient_change = ambient_diff(before);
            set_standard_streams(nullptr);
            global_changed = !(std::locale() == gl) || c_locale != setlocale(LC_ALL, nullptr) || uselocale(nullptr) != LC_GLOBAL_LOCALE;
        }
        log_call("call", k);
        if (global_changed) violate(c, "global-locale", "the call changed the global locale");
        if (!ch.empty()) violate(c, "stream-state", "the call left the caller's stream with another " + ch);
        if (!ambient_change.empty()) violate(c, "process-state", "the call changed what belongs to the process: " + ambient_change);
        if (k.fired) continue;
        if (tls.budget_fired != budget) {
            budget = tls.budget_fired;
            continue;
        }
        if (k.ok() != ref.ok()) violate(c, "outcome", "in the plain environment the call " + ref.outcome() + ", in another it " + k.outcome());
        if (save) {
            if (ref.ok() && k.bytes != ref.bytes) {
                size_t i = 0;
                while (i < k.bytes.size() && i < ref.bytes.size() && k.bytes[i] == ref.bytes[i]) i++;
                violate(c, "bytes", "the saved bytes depend on the environment, from byte " + std::to_string(i) + " of " + std::to_string(ref.bytes.size()));
            }
        } else if (ref.ok()) {
            std::string d = model::diff(ref.spec, k.spec);
            if (!d.empty()) violate(c, "spec", "the loaded spec depends on the environment: " + d);
        }
    }
    tls.budget_max = 0;
    if (!save && good_doc) {
        if (!ref.ok()) violate(c, "reference", "loading a well-formed document " + ref.outcome());
        std::string d = model::check_load(doc, ref.spec);
        if (!d.empty()) violate(c, "reference", d);
    }
}

// ------------------------------------------------------------------------------------------------ C13
void c13(Ctx& c)
{
    fresh_world(c);
    Tape& t = c.t;
    gen::Opt o;
    o.max_size = 3;
    MshSpec spec;
    for (int i = 0; i < 6; i++) { // the generator leaves the extension out of many specs
        spec = gen::spec(t, o);
        if (!spec.curves.empty() || !spec.patches.empty()) break;
    }
    log_spec("spec", spec);
    c.note(shape(spec));
    for (auto& x : spec.curves) c.note(x.with_weights * 4 + ops::bucket(x.data.size()));
    for (auto& x : spec.patches) c.note(x.with_weights * 4 + ops::bucket(x.data.size()));
    // Save and load, next to unchanged standard sections.
    ops::Out out = ops::draw_sink(t);
    ops::In in = ops::draw_source(t);
    c.sample = model::summary(spec) + " | " + ops::describe(out) + " | " + ops::describe(in);
    Call s = ops::save(spec, out);
    log_call("save", s);
    log_bytes("saved", s.bytes);
    if (!s.ok()) violate(c, "save-failed", "saving a valid spec " + s.outcome());
    codec::Decoded dec = codec::decode(s.bytes);
    if (!dec.error.empty()) violate(c, "malformed", dec.error);
    for (auto& sec : dec.doc.sections)
        if (!model::kNano && (sec.kind == model::K_NanoFormat || sec.kind == model::K_Curves || sec.kind == model::K_Patches))
            violate(c, "extension-written", "an extension section was written without the extension");
    Call l = ops::load(s.bytes, in);
    log_call("load", l);
    if (l.threw) violate(c, "load-failed", "loading what save wrote " + l.outcome());
    Doc want = model::doc_of_spec(spec);
    if (want.v22()) want.spec.entities = mshio::Entities();
    std::string d = model::check_load(want, l.spec);
    if (!d.empty()) violate(c, "round-trip", d);
    // A document with the extension's sections anywhere among the others.
    gen::DocOpt dopt;
    dopt.content = o;
    dopt.content.max_size = 2;
    Doc doc;
    for (int i = 0; i < 4; i++) {
        doc = gen::document(t, dopt);
        bool has = false;
        for (auto& sec : doc.sections) has = has || sec.kind == model::K_Curves || sec.kind == model::K_Patches;
        if (has) break;
    }
    log_bytes("document", doc.bytes);
    for (auto& sec : doc.sections) c.note(static_cast<uint64_t>(sec.kind));
    in = ops::draw_source(t);
    l = ops::load(doc.bytes, in);
    log_call("load", l);
    if (l.threw) violate(c, "refused", "loading a document with extension sections " + l.outcome());
    d = model::check_load(doc, l.spec);
    if (!d.empty()) violate(c, "content", d);
}

// ------------------------------------------------------------------------------------------------ C14
void c14(Ctx& c)
{
    fresh_world(c);
    Tape& t = c.t;
    gen::Opt o;
    o.max_size = 2;
    if (t.chance(1, 3)) { // saving
        MshSpec spec = gen::spec(t, o);
        int how = static_cast<int>(t.draw(2));
        if (spec.elements.num_elements == 0) how = 0;
        std::string what;
        if (how == 0) {
            static const char* const v[] = {"4.0", "3", "", "2.1", "4", "2.2.1", "4.10", "5.0", "41", "2,2", "4.1 ", "1.0"};
            spec.mesh_format.version = t.draw(2) ? v[t.draw(12)] : odd_version(t);
            what = "version '" + spec.mesh_format.version + "'";
        } else {
            static const int ty[] = {0, 32, -1, 33, 100, 255, 256, INT_MAX, INT_MIN, 64, 92};
            auto& b = spec.elements.entity_blocks[t.draw(spec.elements.entity_blocks.size())];
            b.element_type = t.draw(2) ? ty[t.draw(11)] : odd_type(t);
            what = "element type " + std::to_string(b.element_type);
        }
        count(C_f_unsupported);
        ops::Out out = ops::draw_sink(t);
        c.note(static_cast<uint64_t>(how)), c.note(shape(spec)), c.note(static_cast<uint64_t>(out.medium));
        c.sample = "save with " + what + " | " + model::summary(spec) + " | " + ops::describe(out);
        Call s = ops::save(spec, out);
        log_call("save", s);
        if (!s.threw) violate(c, "unsupported-saved", "saving a spec with " + what + " did not throw (" + model::summary(spec) + ")");
        return;
    }
    gen::DocOpt dopt;
    dopt.content = o;
    Doc doc = some_document(c, dopt, 30);
    std::string b = doc.bytes;
    const int want = static_cast<int>(t.draw(6));
    auto fields = [&](char w) {
        std::vector<model::Field> v;
        for (auto& f : doc.fields)
            if (f.what == w) v.push_back(f);
        return v;
    };
    std::string what;
    auto set_text = [&](const model::Field& f, const std::string& s) { b.replace(f.off, f.len, s); };
    switch (want) {
    case 0: {
        static const char* const v[] = {"4.0", "3", "2.1", "4", "2.2.1", "4.10", "5.0", "41", "2,2", "1.0", "4.2", "2", "2.20", "4.1a", "04.1", "-2.2"};
        std::string s = t.draw(2) ? v[t.draw(16)] : odd_version(t);
        set_text(fields('v')[0], s);
        what = "version " + s;
        break;
    }
    case 1: {
        if (doc.v22()) return;
        static const char* const v[] = {"4", "0", "16", "-8", "7", "9", "32", "64", "1", "80"};
        std::string s = v[t.draw(10)];
        if (t.draw(2)) {
            const uint64_t n = t.draw(2) ? t.draw(300) : t.draw(1ull << 40);
            s = std::to_string(n == 8 ? 88 : n);
        }
        set_text(fields('s')[0], s);
        what = "data size " + s;
        break;
    }
    case 2: {
        if (!doc.binary()) return;
        static const uint32_t v[] = {0x01000000u, 0u, 2u, 0xffffffffu, 0x00010000u, 0x101u, 0x0000ff01u};
        uint32_t x = v[t.draw(7)];
        if (t.draw(2)) {
            x = t.draw(2) ? 1u ^ (1u << t.draw(32)) : static_cast<uint32_t>(t.draw(1ull << 32));
            const unsigned char first = static_cast<unsigned char>(x & 255);
            if (x == 1 || std::isspace(first)) x = 0x11;
        }
        // white space in front of the mark is skipped, so such a first byte would not be the mark
        memcpy(&b[fields('o')[0].off], &x, 4);
        what = "byte order mark " + std::to_string(x);
        break;
    }
    case 3: {
        auto f = fields('y');
        if (f.empty()) return;
        const model::Field& y = f[t.draw(f.size())];
        static const int32_t v[] = {0, 32, -1, 33, 100, 255, 256, INT_MAX, INT_MIN, 64, 92, 15 + 256, 36};
        int32_t x = t.draw(2) ? v[t.draw(13)] : odd_type(t);
        if (y.text)
            set_text(y, std::to_string(x));
        else
            memcpy(&b[y.off], &x, 4);
        what = "element type " + std::to_string(x);
        break;
    }
    case 4: {
        if (!doc.v22()) return;
        size_t i = t.draw(doc.sections.size());
        size_t pos = 0; // after the header
        for (size_t k = 0; k < doc.sections.size(); k++)
            if (doc.sections[k].kind == model::K_Format) i = std::max(i, k);
        pos = doc.sections[i].end;
        std::string body = t.draw(2) ? "0 0 0 0\n" : "1 0 0 0\n1 0 0 0 0\n";
        if (doc.binary()) body = std::string(32, '\0') + "\n";
        b.insert(pos, "\n$Entities\n" + body + "$EndEntities");
        what = "an entities section in version 2.2";
        break;
    }
    default: {
        auto& s = doc.spec;
        std::vector<mshio::Data*> v;
        for (auto& d : s.node_data) v.push_back(&d);
        for (auto& d : s.element_data) v.push_back(&d);
        for (auto& d : s.element_node_data) v.push_back(&d);
        if (v.empty()) return;
        mshio::Data& d = *v[t.draw(v.size())];
        d.header.int_tags.resize(t.draw(3));
        if (t.draw(2)) d.entries.clear();
        codec::Style st;
        codec::encode(doc, st);
        b = doc.bytes;
        what = "a view with " + std::to_string(d.header.int_tags.size()) + " integer tags";
        break;
    }
    }
    count(C_f_unsupported);
    log_bytes("document", b);
    logf("unsupported: %s", what.c_str());
    ops::In in = ops::draw_source(t);
    c.note(static_cast<uint64_t>(want)), c.note(shape(doc.spec)), c.note(static_cast<uint64_t>(in.medium)), c.note(fnv(what));
    c.sample = "load with " + what + " | " + model::summary(doc.spec) + " | " + ops::describe(in);
    ops::g_limit = 200000000ull + 3000ull * b.size();
    tls.budget_max = 1ll << 28;
    Call l = ops::load(b, in);
    tls.budget_max = 0;
    log_call("load", l);
    if (!l.threw) violate(c, "unsupported-loaded", "a document with " + what + " was accepted (" + model::summary(doc.spec) + ")");
    if (!l.std_exc) violate(c, "unsupported-loaded", "the refusal is not a std::exception");
}

// ------------------------------------------------------------------------------------------------ C15
void c15(Ctx& c)
{
    fresh_world(c);
    Tape& t = c.t;
    gen::Opt o;
    o.max_size = 3;
    MshSpec spec = gen::spec(t, o), other = gen::spec(t, [] {
        gen::Opt q;
        q.max_size = 1;
        return q;
    }());
    log_spec("spec", spec);
    c.note(shape(spec));
    Call ref = ops::plain_save(spec), oref = ops::plain_save(other);
    if (!ref.ok() || !oref.ok()) violate(c, "save-failed", "saving a valid spec " + ref.outcome() + " / " + oref.outcome());
    codec::Decoded dec = codec::decode(ref.bytes), odec = codec::decode(oref.bytes);
    std::string path = ops::draw_path(t, "out.msh"), path2 = ops::draw_path(t, "other.msh");
    auto leaf = [](const std::string& p) { return p.substr(p.rfind('/') + 1); };
    if (leaf(path) == leaf(path2)) path2 = ops::path_of("other.msh");
    // What is there before: nothing, rubbish of any length, or an earlier document.
    int before = static_cast<int>(t.draw(4));
    std::string old;
    if (before == 0)
        raw_unlink(path);
    else {
        if (before == 1) old = std::string(t.draw(3 * ref.bytes.size() + 2), '7');
        if (before == 2) old = oref.bytes;
        if (before == 3) old = ref.bytes + ref.bytes + "$Nodes\n";
        raw_write(path, old);
    }
    FsPlan plan;
    draw_fs(t, plan);
    const bool crash = t.draw(3) == 2;
    c.note(static_cast<uint64_t>(before)), c.note(crash), c.note(static_cast<uint64_t>(plan.shortness));
    std::string o2;
    {
        Call s2 = ops::save_path(path2, other);
        if (!s2.ok()) violate(c, "save-failed", "saving a valid spec " + s2.outcome());
        o2 = s2.bytes;
        if (o2 != oref.bytes) violate(c, "lost-after-return", "after the save returned the other file holds " + std::to_string(o2.size()) + " bytes that are not the document");
    }
    if (!crash) {
        count(C_f_crash_after_return);
        c.sample = model::summary(spec) + " over " + std::to_string(old.size()) + " old bytes, crash after return";
        Call s = ops::save_path(path, spec, &plan); // reads the file back as the system has it at the moment of return
        log_call("save", s);
        log_bytes("file", s.bytes);
        if (!s.ok()) violate(c, "save-failed", "saving a valid spec " + s.outcome());
        if (s.bytes != ref.bytes) {
            violate(c, "lost-after-return", "after the save returned the file holds " + std::to_string(s.bytes.size()) + " bytes that are not the " +
                    std::to_string(ref.bytes.size()) + " byte document");
        }
    } else {
        // Find out how many changes to the disk the save makes, then die after one of them.
        Call dry = ops::save_path(path, spec, &plan);
        uint64_t muts = fs.mutating;
        if (!dry.ok()) violate(c, "save-failed", "saving a valid spec " + dry.outcome());
        if (before == 0)
            raw_unlink(path);
        else
            raw_write(path, old);
        plan.crash_at = static_cast<int64_t>(t.draw(muts + 1));
        plan.crash_torn = t.draw(2) == 1;
        count(C_f_crash_in_call);
        c.sample = model::summary(spec) + " over " + std::to_string(old.size()) + " old bytes, crash at disk change " + std::to_string(plan.crash_at) + " of " + std::to_string(muts);
        Call s = ops::save_path(path, spec, &plan);
        bool exists = false;
        std::string left = raw_read(path, &exists);
        logf("crash at change %lld of %llu, %zu bytes left", static_cast<long long>(plan.crash_at), static_cast<unsigned long long>(muts), left.size());
        c.note(ops::bucket(left.size()));
        // Restart: load what is there.
        Call l = ops::load_path(path);
        log_call("load after restart", l);
        if (!l.threw) {
            if (!exists) violate(c, "restart", "a file that does not exist was loaded");
            if (before != 0 && left == old) {
                // the complete earlier content
                if (before == 2 && odec.error.empty()) {
                    std::string d = model::check_load(odec.doc, l.spec);
                    if (!d.empty()) violate(c, "restart", "the earlier document loads differently: " + d);
                }
            } else if (!is_prefix(left, ref.bytes)) {
                violate(c, "restart", "after the crash the file holds neither the earlier content nor a prefix of the new document, and loads");
            } else if (dec.error.empty())
                check_torn(c, dec.doc, left.size(), l, "file after the crash");
        }
        // Saving again after the restart gives the complete document.
        Call again = ops::save_path(path, spec);
        if (!again.ok() || again.bytes != ref.bytes) violate(c, "restart", "a save after the restart does not give the complete document");
    }
    if (raw_read(path2) != o2) violate(c, "other-file", "saving to one file changed another");
    Call l = ops::load_path(path);
    log_call("load", l);
    if (l.threw) violate(c, "reload", "the saved file cannot be loaded: " + l.outcome());
    Doc want = model::doc_of_spec(spec);
    if (want.v22()) want.spec.entities = mshio::Entities();
    std::string d = model::check_load(want, l.spec);
    if (!d.empty()) violate(c, "reload", d);
}

// ------------------------------------------------------------------------------------------------ C16
// Mappings of files in the scratch directory, and in total (kernel buffers of freed heap come and go, hence only the first).
uint64_t count_file_maps()
{
    const int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/proc/self/maps", O_RDONLY | O_CLOEXEC, 0));
    if (fd < 0) return 0;
    static std::string text; // kept: the count must not change the heap from one repetition to the next
    text.clear();
    text.reserve(1 << 20);
    static char buf[65536];
    for (long n; (n = syscall(SYS_read, fd, buf, sizeof buf)) > 0;) text.append(buf, static_cast<size_t>(n));
    syscall(SYS_close, fd);
    uint64_t n = 0;
    const std::string& dir = scratch_dir();
    for (size_t at = 0; (at = text.find(dir, at)) != std::string::npos; at += dir.size()) n++;
    return n;
}

void c16(Ctx& c)
{
    fresh_world(c);
    Tape& t = c.t;
    gen::Opt o;
    o.max_size = 2;
    const int kind = static_cast<int>(t.draw(8));
    c.note(static_cast<uint64_t>(kind));
    gen::DocOpt dopt;
    dopt.content = o;
    Doc doc;
    MshSpec spec;
    std::string bytes;
    const bool save = kind >= 5;
    if (save) {
        o.allow_unrepresentable = true;
        spec = gen::spec(t, o);
        c.note(shape(spec));
    } else {
        doc = some_document(c, dopt, 40);
        bytes = doc.bytes;
        c.note(shape(doc.spec));
    }
    ops::In in = ops::draw_source(t);
    ops::Out out = ops::draw_sink(t);
    int64_t fail_at = -1;
    size_t cut = 0;
    switch (kind) {
    case 0: break;
    case 1: bytes.resize(cut = draw_cut(c, doc)); break;
    case 2: damage(c, doc, bytes); break;
    case 3:
        if (in.medium == 2) in.medium = 0;
        in.in.fail_at = in.fs.read_fail_at = static_cast<int64_t>(t.draw(bytes.size() + 1));
        break;
    case 4: fail_at = static_cast<int64_t>(t.draw(300)); break;
    case 5: break;
    case 6:
        if (out.medium == 2) out.medium = 1;
        out.out.fail_at = out.fs.write_fail_at = static_cast<int64_t>(t.draw(2000));
        if (t.chance(1, 4)) out.fs.open_errno = 13;
        if (t.chance(1, 4)) out.fs.close_errno = 5;
        break;
    default: fail_at = static_cast<int64_t>(t.draw(60));
    }
    if (save && t.chance(1, 6)) spec.mesh_format.version = "9.9";
    ops::g_limit = 200000000ull + 3000ull * bytes.size();
    static const char* const names[] = {"load", "torn load", "damaged load", "failing load", "load out of memory", "save", "failing save", "save out of memory"};
    c.sample = std::string(names[kind]) + " repeated | " + (save ? model::summary(spec) + " | " + ops::describe(out) : model::summary(doc.spec) + " | " + ops::describe(in));
    // What grows now and then only (an array that doubles) shows over many repetitions of a small call.
    constexpr int kMost = 48;
    const bool many = (save ? values_in(spec) : bytes.size() / 16) < 2000 && t.chance(1, 6);
    const int kReps = many ? kMost : 6;
    int64_t blocks[kMost + 1], heap[kMost + 1], held[kMost + 1], own_maps[kMost + 1];
    int fds[kMost + 1];
    uint64_t maps[kMost + 1];
    if (many) count(C_p_many_repetitions);
    bool threw = false;
    EventLog* saved = elog;
    std::set<std::string> files;
    list_scratch(files);
    for (int r = 0; r <= kReps; r++) {
        blocks[r] = g_live_blocks.load();
        heap[r] = g_raw_blocks.load();
        held[r] = g_live_bytes.load();
        own_maps[r] = g_maps.load();
        fds[r] = count_fds();
        maps[r] = count_file_maps();
        if (r == kReps) break;
        elog = r == 0 ? saved : nullptr; // repetitions are not logged: logging allocates
        tls.alloc_index = 0;
        tls.fail_at = fail_at;
        tls.budget_max = 48ll << 20;
        {
            Call k = save ? ops::save(spec, out) : ops::load(bytes, in);
            threw = !k.ok();
            if (r == 0) {
                tls.budget_max = 0;
                tls.fail_at = -1;
                log_call("call", k);
            }
        }
        tls.fail_at = -1;
        tls.budget_max = 0;
    }
    elog = saved;
    tls.fired = 0;
    c.note(threw);
    {
        const int medium = save ? out.medium : in.medium;
        const std::string own = save ? (out.path.empty() ? ops::path_of("out.msh") : out.path) : in.path.empty() ? ops::path_of("in.msh") : in.path;
        char real[PATH_MAX];
        if ((medium == 1 || medium == 3) && realpath(own.c_str(), real)) files.insert(real);
        std::set<std::string> now;
        list_scratch(now);
        for (const auto& f : now)
            if (!files.count(f)) violate(c, "file-left", std::string(names[kind]) + (threw ? " (failed)" : "") + ": leaves a file " + f.substr(f.rfind('/') + 1) + " behind");
    }
    // What is acquired once and kept is not a leak; what grows with every repetition is.
    auto grows = [&](auto* v) {
        bool every = true;
        for (int r = 2; r <= kReps; r++) every = every && v[r] > v[r - 1];
        return every || (many && v[12] > v[6] && v[24] > v[12] && v[48] > v[24]);
    };
    if (grows(blocks)) violate(c, "memory-leak", std::string(names[kind]) + (threw ? " (failed)" : "") + ": every repetition leaves " + std::to_string(blocks[3] - blocks[2]) + " allocations behind");
    if (grows(fds)) violate(c, "descriptor-leak", std::string(names[kind]) + (threw ? " (failed)" : "") + ": every repetition leaves an open file descriptor behind");
    if (grows(maps)) violate(c, "mapping-leak", std::string(names[kind]) + (threw ? " (failed)" : "") + ": every repetition leaves a mapped file behind");
    if (grows(own_maps)) violate(c, "mapping-leak", std::string(names[kind]) + (threw ? " (failed)" : "") + ": every repetition leaves mapped memory behind");
    if (grows(held)) violate(c, "memory-leak", std::string(names[kind]) + (threw ? " (failed)" : "") + ": repeating the call takes more and more memory, " + std::to_string(held[kReps] - held[kReps / 2]) + " bytes from the " + std::to_string(kReps / 2) + "th time to the " + std::to_string(kReps) + "th");
    if (grows(heap)) violate(c, "memory-leak", std::string(names[kind]) + (threw ? " (failed)" : "") + ": every repetition leaves heap blocks behind");
}

// ------------------------------------------------------------------------------------------------ C17
// One dimension of the content grows by a factor; what a load and a save cost must grow no faster than a
// generous multiple of it.
enum Dim {
    G_NODES, G_NODE_BLOCKS, G_ELEMENTS, G_ELEMENT_BLOCKS, G_MESH, G_ENTITIES, G_BOUNDARY, G_GROUPS, G_ENTRIES, G_FIELDS, G_VIEWS,
    G_NAME, G_HEADER_TAGS, G_EMPTY_BLOCKS, G_CURVES, G_CONTROL_POINTS, G_NODES_PER_ELEMENT, G_TAG_MAGNITUDE, // specs
    G_UNKNOWN_SIZE, G_UNKNOWN_COUNT, G_ELEMENT_TAGS, G_SPACE, G_STRAY, G_TOKEN_SPACE, G_ZEROS, G_SECTION_NAME, G_PHYSICALS, // documents
    G_count
};
const char* const kDimNames[] = {"nodes in a block", "node blocks", "elements in a block", "element blocks", "nodes and elements", "entities",
    "boundary list", "physical groups", "entries of a view", "fields of a view", "views", "length of a name", "header tags of a view", "empty blocks",
    "curves and patches", "control points", "nodes per element of a view", "magnitude of the tags", "size of an unknown section",
    "number of unknown sections", "tags of an element", "white space between sections", "words between sections", "white space inside a section", "digits of a number",
    "length of the name of an unknown section", "physical groups of an entity"};
struct Growth
{
    int dim = 0, version = 0, binary = 0, pick = 0, distinct = 2, order = 0, type = 2, fields = 1;
    size_t stride = 1; // from one tag to the next
    uint64_t seed = 0;
};

MshSpec grown(const Growth& g, size_t n)
{
    MshSpec s;
    Rng r(g.seed);
    s.mesh_format.version = g.version ? "2.2" : "4.1";
    s.mesh_format.file_type = g.binary;
    size_t nodes = 4, node_blocks = 1, elements = 2, element_blocks = 1, stride = g.stride;
    switch (g.dim) {
    case G_NODES: nodes = n; break;
    case G_NODE_BLOCKS: nodes = node_blocks = n; break;
    case G_ELEMENTS: elements = n; break;
    case G_PHYSICALS: elements = n; break;
    case G_ELEMENT_BLOCKS: elements = element_blocks = n; break;
    case G_MESH: nodes = elements = n, node_blocks = element_blocks = static_cast<size_t>(g.distinct); break;
    case G_TAG_MAGNITUDE: nodes = elements = 8, stride = n * 2500; break;
    default: break;
    }
    // tags in one of several orders
    auto order = [&](std::vector<size_t>& v) {
        if (g.order == 1) std::reverse(v.begin(), v.end());
        if (g.order == 2)
            for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        if (g.order == 3)
            for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[i + 1]);
    };
    std::vector<size_t> nt(nodes), et(elements);
    for (size_t i = 0; i < nodes; i++) nt[i] = 1 + i * stride;
    for (size_t i = 0; i < elements; i++) et[i] = 1 + i * stride;
    order(nt), order(et);
    for (size_t b = 0, k = 0; b < node_blocks; b++) {
        mshio::NodeBlock blk;
        blk.entity_dim = g.dim == G_MESH || node_blocks > 1 ? static_cast<int>(b % 4) : 2;
        blk.entity_tag = 1 + static_cast<int>(b % static_cast<size_t>(g.distinct));
        if (g.pick == 1 && g.dim == G_NODE_BLOCKS) blk.entity_tag = 1 + static_cast<int>(b);
        size_t end = nodes * (b + 1) / node_blocks;
        for (; k < end; k++) {
            blk.tags.push_back(nt[k]);
            for (int j = 0; j < 3; j++) blk.data.push_back(static_cast<double>(r.below(1000)) / 8);
        }
        blk.num_nodes_in_block = blk.tags.size();
        s.nodes.entity_blocks.push_back(std::move(blk));
    }
    for (size_t b = 0, k = 0; b < element_blocks; b++) {
        mshio::ElementBlock blk;
        blk.element_type = element_blocks > 1 && g.pick == 2 ? 2 + static_cast<int>(b % 2) : g.type;
        blk.entity_dim = model::dim_of(blk.element_type);
        blk.entity_tag = 1 + static_cast<int>(b % static_cast<size_t>(g.distinct));
        if (g.pick == 1 && g.dim == G_ELEMENT_BLOCKS) blk.entity_tag = 1 + static_cast<int>(b);
        size_t end = elements * (b + 1) / element_blocks, m = static_cast<size_t>(model::nodes_of(blk.element_type));
        for (; k < end; k++) {
            blk.data.push_back(et[k]);
            for (size_t j = 0; j < m; j++) blk.data.push_back(nt[g.order == 2 ? r.below(nodes) : (k + j) % nodes]);
            blk.num_elements_in_block++;
        }
        s.elements.entity_blocks.push_back(std::move(blk));
    }
    if (g.dim == G_EMPTY_BLOCKS) {
        s.nodes.entity_blocks.resize(1 + n, s.nodes.entity_blocks[0]);
        for (size_t i = 1; i <= n; i++) {
            auto& b = s.nodes.entity_blocks[i];
            b.tags.clear(), b.data.clear(), b.num_nodes_in_block = 0;
            b.entity_tag = 2 + static_cast<int>(i);
        }
        s.elements.entity_blocks.resize(1 + n, s.elements.entity_blocks[0]);
        for (size_t i = 1; i <= n; i++) {
            auto& b = s.elements.entity_blocks[i];
            b.data.clear(), b.num_elements_in_block = 0;
            b.entity_tag = 2 + static_cast<int>(i);
        }
    }
    s.nodes.num_entity_blocks = s.nodes.entity_blocks.size();
    s.nodes.num_nodes = nodes;
    s.nodes.min_node_tag = *std::min_element(nt.begin(), nt.end()), s.nodes.max_node_tag = *std::max_element(nt.begin(), nt.end());
    s.elements.num_entity_blocks = s.elements.entity_blocks.size();
    s.elements.num_elements = elements;
    s.elements.min_element_tag = *std::min_element(et.begin(), et.end()), s.elements.max_element_tag = *std::max_element(et.begin(), et.end());
    const bool list = g.dim == G_BOUNDARY;
    if ((g.dim == G_ENTITIES || list || g.dim == G_TAG_MAGNITUDE) && !g.version) {
        const size_t m = g.dim == G_ENTITIES ? n : 2;
        const int mul = g.dim == G_TAG_MAGNITUDE ? static_cast<int>(n) * 100 : 1;
        auto tags = [&](size_t k) {
            std::vector<int> v(k);
            for (auto& x : v) x = 1 + static_cast<int>(r.below(k + 5)) * mul;
            return v;
        };
        for (size_t i = 0; i < m; i++) {
            const int tag = 1 + static_cast<int>(i) * mul;
            const size_t np = list && g.fields % 2 ? n : 1, nb = list && g.fields % 2 == 0 ? n : 2;
            switch (g.pick) {
            case 0: {
                mshio::PointEntity e;
                e.tag = tag, e.x = 1.5, e.physical_group_tags = tags(list ? n : 1);
                s.entities.points.push_back(e);
                break;
            }
            case 1: {
                mshio::CurveEntity e;
                e.tag = tag, e.max_x = 1.5, e.physical_group_tags = tags(np), e.boundary_point_tags = tags(nb);
                s.entities.curves.push_back(e);
                break;
            }
            case 2: {
                mshio::SurfaceEntity e;
                e.tag = tag, e.max_x = 1.5, e.physical_group_tags = tags(np), e.boundary_curve_tags = tags(nb);
                s.entities.surfaces.push_back(e);
                break;
            }
            default: {
                mshio::VolumeEntity e;
                e.tag = tag, e.max_x = 1.5, e.physical_group_tags = tags(np), e.boundary_surface_tags = tags(nb);
                s.entities.volumes.push_back(e);
            }
            }
        }
    }
    if (g.dim == G_GROUPS || (g.dim == G_NAME && g.pick == 3) || g.dim == G_TAG_MAGNITUDE) {
        const size_t m = g.dim == G_GROUPS ? n : 2;
        for (size_t i = 0; i < m; i++) {
            mshio::PhysicalGroup p;
            p.dim = static_cast<int>(i % 4);
            p.tag = 1 + static_cast<int>(i) * (g.dim == G_TAG_MAGNITUDE ? static_cast<int>(n) * 100 : 1);
            p.name = g.dim == G_NAME ? std::string(n * 40, "ab \"\\"[g.fields % 5]) : "group " + std::to_string(i);
            s.physical_groups.push_back(p);
        }
    }
    const size_t views = g.dim == G_VIEWS ? n : g.dim == G_ENTRIES || g.dim == G_FIELDS || g.dim == G_HEADER_TAGS || g.dim == G_NODES_PER_ELEMENT || (g.dim == G_NAME && g.pick != 3) || g.dim == G_TAG_MAGNITUDE ? 1 : 0;
    const bool per = g.pick == 2 || g.dim == G_NODES_PER_ELEMENT;
    for (size_t v = 0; v < views; v++) {
        mshio::Data d;
        d.header.string_tags.push_back(g.dim == G_NAME ? std::string(n * 40, "ab \"\\"[g.fields % 5]) : "a view");
        d.header.real_tags.push_back(0.5);
        const size_t fields = g.dim == G_FIELDS ? n : static_cast<size_t>(g.fields);
        const size_t entries = g.dim == G_ENTRIES ? n : 3;
        d.header.int_tags = {0, static_cast<int>(fields), static_cast<int>(entries)};
        if (g.dim == G_HEADER_TAGS) {
            for (size_t i = 0; i < n && g.order == 0; i++) d.header.string_tags.push_back("tag");
            for (size_t i = 0; i < n && g.order == 1; i++) d.header.real_tags.push_back(static_cast<double>(i));
            for (size_t i = 0; i < n && g.order >= 2; i++) d.header.int_tags.push_back(static_cast<int>(i));
        }
        for (size_t i = 0; i < entries; i++) {
            mshio::DataEntry e;
            e.tag = 1 + i * stride;
            e.num_nodes_per_element = per ? (g.dim == G_NODES_PER_ELEMENT ? static_cast<int>(n) : 3) : 0;
            e.data.resize(fields * (per ? static_cast<size_t>(e.num_nodes_per_element) : 1));
            for (auto& x : e.data) x = static_cast<double>(r.below(1000)) / 8;
            d.entries.push_back(std::move(e));
        }
        (per ? s.element_node_data : g.pick == 1 ? s.element_data : s.node_data).push_back(std::move(d));
    }
    if (g.dim == G_CURVES || g.dim == G_CONTROL_POINTS) {
        const size_t m = g.dim == G_CURVES ? n : 1;
        s.nanospline_format.version = "1.0";
        for (size_t i = 0; i < m; i++) {
            mshio::Curve k;
            k.curve_tag = 1 + i, k.curve_type = 1, k.curve_degree = 3, k.with_weights = static_cast<size_t>(g.order % 2);
            k.num_control_points = g.dim == G_CONTROL_POINTS ? n : 4, k.num_knots = g.dim == G_CONTROL_POINTS ? n + 4 : 8;
            k.data.assign(k.num_control_points * (k.with_weights ? 4 : 3) + k.num_knots, 0.25);
            mshio::Patch p;
            p.patch_tag = 1 + i, p.patch_type = 1, p.degree_u = p.degree_v = 2, p.with_weights = static_cast<size_t>(g.order / 2);
            p.num_control_points = k.num_control_points, p.num_u_knots = p.num_v_knots = k.num_knots;
            p.data.assign(p.num_control_points * (p.with_weights ? 4 : 3) + 2 * k.num_knots, 0.75);
            if (g.pick != 1) s.curves.push_back(std::move(k));
            if (g.pick != 0) s.patches.push_back(std::move(p));
        }
    }
    return s;
}

Doc grown_document(const Growth& g, size_t n, const codec::Style& st)
{
    MshSpec s = grown(g, n);
    Doc d = model::doc_of_spec(s);
    if (d.v22()) d.spec.entities = mshio::Entities();
    Rng r(g.seed + 1);
    auto unknown = [&](size_t at, const std::string& name, const std::string& payload) {
        Section u;
        u.kind = model::K_Unknown;
        u.index = d.unknown_names.size();
        d.unknown_names.push_back(name);
        d.unknown_payloads.push_back(payload);
        d.sections.insert(d.sections.begin() + static_cast<long>(at), u);
    };
    if (g.dim == G_UNKNOWN_SIZE) {
        static const char* const pieces[] = {"some words\n", "$", "$End", "$EndComment\n", "\n", "no line end ", "1 2 3 4.5\n", "$EndComments1 ", "$Comments\n"};
        std::string p, piece = pieces[static_cast<size_t>(g.fields) % 9];
        if (g.fields % 9 == 7) piece = "$$EndComment";
        while (p.size() < n * 60) p += piece;
        p += "\n";
        unknown(1, "Comments", p);
    }
    if (g.dim == G_UNKNOWN_COUNT)
        for (size_t i = 0; i < n; i++)
            unknown(1 + r.below(d.sections.size()), g.pick == 0 ? "Comments" : "Extra" + std::to_string(i), "words\n");
    if (g.dim == G_ELEMENT_TAGS && d.v22()) {
        const int tag = d.spec.elements.entity_blocks[0].entity_tag;
        d.el_tags[0] = std::vector<int>(n, 1);
        d.el_tags[0][1 < n ? 1 : 0] = tag;
        d.el_tags[0].back() = tag;
    }
    if (g.dim == G_PHYSICALS && d.v22())
        for (size_t i = 0; i < d.el_tags.size(); i++) d.el_tags[i] = {1 + static_cast<int>(g.order == 1 ? n - i : g.order == 2 ? r.below(n) : i), g.pick % 2 ? 1 : d.spec.elements.entity_blocks[0].entity_tag};
    if (g.dim == G_SECTION_NAME) unknown(1, std::string(n * 20, "xE$"[g.pick % 3]), g.pick ? "words\n" : std::string(n * 20, '$') + "\n");
    codec::encode(d, st);
    if (g.dim == G_TOKEN_SPACE || g.dim == G_ZEROS) {
        // In front of the first number of the first section that has any.
        for (const auto& sec : d.sections) {
            if (sec.kind != model::K_Nodes && sec.kind != model::K_Elements) continue;
            size_t p = d.bytes.find_first_of("0123456789", sec.body);
            if (p == std::string::npos || p >= sec.body_end) break;
            if (g.dim == G_ZEROS)
                d.bytes.insert(p, std::string(n * 20, '0'));
            else
                d.bytes.insert(sec.body, std::string(n * 20, g.pick == 1 ? '\n' : g.pick == 2 ? '\t' : ' '));
            break;
        }
    }
    if (g.dim == G_SPACE || g.dim == G_STRAY) {
        std::string b;
        size_t last = 0;
        for (const auto& sec : d.sections) {
            if (sec.begin == 0) continue;
            b.append(d.bytes, last, sec.begin - last);
            if (g.dim == G_STRAY) {
                static const char* const words[] = {"words ", "a\n", "1 2 3\n", "End$x "};
                for (size_t i = 0; i < n * 4; i++) b += words[g.pick];
                b += '\n';
            } else {
                b.append(n * 20, g.pick == 1 ? ' ' : '\n');
                if (g.pick == 1) b += '\n';
            }
            last = sec.begin;
        }
        b.append(d.bytes, last, std::string::npos);
        d.bytes = b;
    }
    return d;
}

void compare_cost(Ctx& c, const char* what, const Growth& g, size_t n, size_t factor, const Call& a, const Call& b)
{
    const uint64_t f = 3 * factor;
    struct
    {
        const char* name;
        uint64_t a, b, slack;
    } m[] = {
        {"steps", a.steps, b.steps, 30000},
        {"bytes requested from the heap", a.alloc_bytes, b.alloc_bytes, 300000},
        {"bytes held at one time", static_cast<uint64_t>(a.peak), static_cast<uint64_t>(b.peak), 300000},
        {"allocations", static_cast<uint64_t>(a.allocs), static_cast<uint64_t>(b.allocs), 2000},
        {"bytes copied, filled, compared or searched", a.moved, b.moved, 400000},
        {"bytes fetched from the source", a.fetched, b.fetched, 100000},
    };
    for (const auto& x : m) {
        if (x.b > x.a * f + x.slack)
            violate(c, "cost", std::string(what) + ": " + std::to_string(factor) + " times the " + kDimNames[g.dim] + " (" + std::to_string(n) + " to " +
                                   std::to_string(n * factor) + ") takes " + std::to_string(x.b) + " instead of " + std::to_string(x.a) + " " + x.name);
    }
    if (b.stack > a.stack + 40000)
        violate(c, "stack", std::string(what) + ": " + std::to_string(factor) + " times the " + kDimNames[g.dim] + " takes " + std::to_string(b.stack) +
                                " instead of " + std::to_string(a.stack) + " bytes of stack");
}

void log_cost(const char* what, const Call& k)
{
    // not the peak: the heap may round the same request up by 16 bytes or not
    logf("%s: %s steps=%llu allocs=%lld bytes=%llu", what, k.outcome().c_str(), static_cast<unsigned long long>(k.steps),
        static_cast<long long>(k.allocs), static_cast<unsigned long long>(k.alloc_bytes));
}

void c17(Ctx& c)
{
    fresh_world(c);
    Tape& t = c.t;
    if (t.chance(1, 25)) { // a long history: the last call costs what an early one did
        gen::Opt o;
        o.max_size = 1;
        const size_t calls = 60;
        const bool same = t.draw(2) == 0;
        gen::DocOpt dopt;
        dopt.content = o;
        Doc first = some_document(c, dopt, 40), other = some_document(c, dopt, 40);
        MshSpec spec = gen::spec(t, o);
        c.note(99), c.note(same), c.note(shape(first.spec)), c.note(shape(spec));
        c.sample = "the same load and save after " + std::to_string(calls) + " others | " + model::summary(first.spec);
        Call l1, s1;
        ops::In in;
        in.medium = 2;
        Rng r(t.seed());
        for (size_t i = 0; i < calls; i++) {
            Call l = ops::load(first.bytes, in), s = ops::plain_save(spec);
            if (i == 3) l1 = l, s1 = s;
            if (i + 1 == calls) {
                log_cost("load", l), log_cost("save", s);
                if (l.steps > l1.steps * 2 + 20000 || l.alloc_bytes > l1.alloc_bytes * 2 + 200000 || l.moved > l1.moved * 2 + 200000)
                    violate(c, "cost-history", "after " + std::to_string(calls) + " loads a load takes " + std::to_string(l.steps) + " instead of " + std::to_string(l1.steps) + " steps, " +
                                                   std::to_string(l.alloc_bytes) + " instead of " + std::to_string(l1.alloc_bytes) + " bytes of memory");
                if (s.steps > s1.steps * 2 + 20000 || s.alloc_bytes > s1.alloc_bytes * 2 + 200000 || s.moved > s1.moved * 2 + 200000)
                    violate(c, "cost-history", "after " + std::to_string(calls) + " saves a save takes " + std::to_string(s.steps) + " instead of " + std::to_string(s1.steps) + " steps, " +
                                                   std::to_string(s.alloc_bytes) + " instead of " + std::to_string(s1.alloc_bytes) + " bytes of memory");
            }
            if (!same) {
                std::string b = other.bytes;
                if (r.below(2)) b.resize(r.below(b.size() + 1));
                ops::load(b, in);
            }
        }
        return;
    }
    Growth g;
    g.dim = static_cast<int>(t.draw(G_count));
    g.version = static_cast<int>(t.draw(2));
    g.binary = static_cast<int>(t.draw(2));
    g.pick = static_cast<int>(t.draw(4));
    static const int dist[] = {2, 7, 1, 40};
    g.distinct = dist[t.draw(4)];
    g.order = static_cast<int>(t.draw(4));
    static const int types[] = {2, 15, 4, 5, 11, 1};
    g.type = types[t.draw(6)];
    g.fields = static_cast<int>(1 + t.draw(10));
    g.seed = t.seed();
    // Tags are often numbered by part, and a table of tags has buckets in some such number.
    static const size_t strides[] = {2, 64, 256, 1024, 4096, 65536, 10, 1000, 1000000, 2357, 5087, 10273, 20753, 42043, 107897};
    if (t.chance(1, 3)) g.stride = strides[t.draw(15)];
    if (g.dim == G_ELEMENT_TAGS || g.dim == G_PHYSICALS) g.version = 1;
    if (g.dim == G_TOKEN_SPACE || g.dim == G_ZEROS) g.binary = 0;
    if (g.dim == G_ENTITIES || g.dim == G_BOUNDARY) g.version = 0;
    if ((g.dim == G_CURVES || g.dim == G_CONTROL_POINTS) && !model::kNano) g.dim = G_NODES + g.dim % 4;
    const size_t n = 50 + t.draw(100);
    const size_t factor = t.chance(1, 8) ? 100 : 32;
    if (n * factor * g.stride > 2000000000) g.stride = 1; // what 2.2 and the views have room for
    codec::Style st;
    codec::draw_style(t, g.binary != 0, st);
    ops::In in = ops::draw_source(t);
    ops::Out out = ops::draw_sink(t);
    c.note(static_cast<uint64_t>(g.dim)), c.note(static_cast<uint64_t>(g.version * 2 + g.binary)), c.note(static_cast<uint64_t>(g.pick));
    c.note(static_cast<uint64_t>(g.order)), c.note(static_cast<uint64_t>(in.medium)), c.note(static_cast<uint64_t>(out.medium)), c.note(static_cast<uint64_t>(g.type));
    c.sample = std::string(kDimNames[g.dim]) + " from " + std::to_string(n) + " to " + std::to_string(n * factor) + (g.version ? ", 2.2" : ", 4.1") +
               (g.binary ? " binary" : " ASCII") + " | " + ops::describe(in) + " | " + ops::describe(out);
    const bool foreign = t.draw(2) == 1 || g.dim >= G_UNKNOWN_SIZE;
    const size_t flat = g.dim == G_TAG_MAGNITUDE ? 1 : factor; // how much the document grows
    Call l[2], s[2];
    for (int k = 0; k < 2; k++) {
        const size_t m = k ? n * factor : n;
        std::string bytes;
        if (foreign)
            bytes = grown_document(g, m, st).bytes;
        else {
            Call p = ops::plain_save(grown(g, m));
            if (!p.ok()) violate(c, "save-failed", "saving a valid spec " + p.outcome());
            bytes = p.bytes;
        }
        log_bytes("document", bytes);
        l[k] = ops::load(bytes, in);
        log_cost("load", l[k]);
        if (l[k].threw) violate(c, "load-failed", "loading a well-formed document " + l[k].outcome());
        l[k].spec = MshSpec();
        if (g.dim < G_UNKNOWN_SIZE) {
            MshSpec spec = grown(g, m);
            s[k] = ops::save(spec, out);
            log_cost("save", s[k]);
            if (!s[k].ok()) violate(c, "save-failed", "saving a valid spec " + s[k].outcome());
        }
    }
    compare_cost(c, "load", g, n, flat, l[0], l[1]);
    if (g.dim < G_UNKNOWN_SIZE) compare_cost(c, "save", g, n, flat, s[0], s[1]);
}

// ------------------------------------------------------------------------------------------------ C18
void c18(Ctx& c)
{
    fresh_world(c);
    gen::DocOpt o;
    o.content.max_size = 3;
    std::vector<model::Field> numbers;
    codec::g_numbers = &numbers;
    Doc doc = gen::document(c.t, o);
    codec::g_numbers = nullptr;
    log_bytes("document", doc.bytes);
    c.note(shape(doc.spec));
    // Whatever one number of these documents is replaced by, what follows cannot stand in for it.
    static const char* const no_number[] = {"x", "abc", "-", "+", "--1", "++2", "+-3", "-+4", "_7", "#", "one", ",5", "\x80", "\"5\"", "e5", "$", "-x", "=1", "(3)", "/"};
    static const char* const no_real[] = {".", "-.", "+.", "1e", "2e+", "-3.5e-", ".e1", "na", "in", "n", "i", "-na", "+i", "nax", "inx", "-ib", "--nan", "+-inf", "1e999", "-1e999", "17.5e400",
        "--.5", "-+1.5e3", "++0", "e", "E+3", "nn", "-n"};
    static const char* const no_integer[] = {".5", "nan", "inf", "-.1", "-inf", "+nan"};
    static const char* const no_int[] = {"2147483648", "-2147483649", "4294967296", "4294967297", "-4294967296", "99999999999999999999", "18446744073709551617", "9223372036854775808"};
    static const char* const no_size[] = {"18446744073709551616", "18446744073709551617", "99999999999999999999999999", "-99999999999999999999999999", "340282366920938463463374607431768211457"};
    const size_t reps = doc.bytes.size() > 20000 ? 3 : 8;
    for (size_t r = 0; r < reps; r++) {
        std::string bad = doc.bytes, what;
        const int kind = static_cast<int>(c.t.draw(10));
        if (kind == 9) { // no end tag
            const Section& s = doc.sections[c.t.draw(doc.sections.size())];
            const size_t at = bad.rfind("$End", s.end);
            if (at == std::string::npos || at < s.begin) continue;
            const std::string tag = bad.substr(at, s.end - at);
            std::string other = tag;
            switch (c.t.draw(6)) {
            case 0: other.back() ^= 1; break;
            case 1: other += "x"; break;
            case 2: other = "$END" + tag.substr(4); break;
            case 3: other = "$" + tag.substr(4); break;
            case 4: other.pop_back(); break;
            default: other = tag.substr(1); break;
            }
            bad.replace(at, tag.size(), other);
            // The tag (as a word of its own) must not come later, and the altered one must not be one.
            bool again = false;
            for (size_t i = s.begin; (i = bad.find(tag, i)) != std::string::npos; i++)
                again = again || i + tag.size() == bad.size() || strchr(" \t\r\n\v\f", bad[i + tag.size()]);
            if (again) continue;
            what = tag + " -> " + other;
            count(C_f_bad_end_tag);
        } else {
            if (numbers.empty()) continue;
            // As often one of a few numbers (headers) as one of many (coordinates).
            const bool outer = kind == 8;
            std::vector<const model::Field*> pick;
            if (outer) {
                for (const auto& f : numbers)
                    if (f.num == 'e') pick.push_back(&f);
            } else if (kind < 4) {
                for (const auto& f : numbers)
                    if (f.num != 'e' && f.what) pick.push_back(&f);
            } else
                for (const auto& f : numbers)
                    if (f.num == (kind < 6 ? 'f' : kind == 6 ? 'i' : 'u')) pick.push_back(&f);
            if (pick.empty()) continue;
            const model::Field& f = *pick[c.t.draw(3) ? c.t.draw(pick.size()) : pick.size() - 1];
            std::string by;
            if (outer) {
                static const unsigned more[] = {1, 2, 3, 7, 100, 5000};
                by = std::to_string(strtoull(bad.substr(f.off, f.len).c_str(), nullptr, 10) + more[c.t.draw(6)]);
                count(C_f_short_section);
            } else {
#define PICK(a) a[c.t.draw(sizeof a / sizeof *a)]
                const bool general = c.t.draw(3) == 0;
                if (general)
                    by = PICK(no_number);
                else if (f.num == 'f')
                    by = PICK(no_real);
                else if (c.t.draw(3) == 0)
                    by = PICK(no_integer);
                else if (f.num == 'i')
                    by = PICK(no_int);
                else
                    by = PICK(no_size);
#undef PICK
                count(C_f_bad_number);
            }
            what = "'" + bad.substr(f.off, f.len) + "' at byte " + std::to_string(f.off) + " -> '" + by + "'";
            bad.replace(f.off, f.len, by);
        }
        ops::In in = ops::draw_source(c.t);
        logf("%s", what.c_str());
        c.note(static_cast<uint64_t>(kind));
        if (c.sample.empty()) c.sample = model::summary(doc.spec) + " | " + what + " | " + ops::describe(in);
        ops::g_limit = 80000000ull + 3000ull * bad.size();
        tls.budget_max = 1ll << 28;
        Call l = ops::load(bad, in);
        tls.budget_max = 0;
        log_call("load", l);
        if (!l.threw) violate(c, "malformed-accepted", "a load accepted a document with " + what + " (" + model::summary(doc.spec) + ")");
        if (!l.std_exc) violate(c, "exception-type", "a load threw something that is no std::exception for a document with " + what);
    }
    if (c.t.draw(4) == 0) { // and only because of that
        Call l = ops::load(doc.bytes, ops::draw_source(c.t));
        log_call("intact", l);
        if (l.threw) violate(c, "intact-rejected", "the intact document " + l.outcome() + " (" + model::summary(doc.spec) + ")");
        std::string m = model::check_load(doc, l.spec);
        if (!m.empty()) violate(c, "intact-altered", m + " (" + model::summary(doc.spec) + ")");
    }
}

} // namespace

const Prop kProps[] = {
    {"C01", c01, 25}, {"C02", c02, 25}, {"C03", c03, 25}, {"C04", c04, 25}, {"C05", c05, 20}, {"C06", c06, 20}, {"C07", c07, 20},
    {"C08", c08, 20}, {"C09", c09, 20}, {"C10", c10, 4}, {"C11", c11, 10}, {"C12", c12, 20}, {"C13", c13, 25}, {"C14", c14, 40},
    {"C15", c15, 20}, {"C16", c16, 20}, {"C17", c17, 20}, {"C18", c18, 25},
    {"C01G", [](Ctx& c) { giant(c, false); }, 1}, {"C01H", [](Ctx& c) { giant(c, true); }, 1}, // parts of C01, one run each: they need more than 10 GB
};
const int kNumProps = sizeof kProps / sizeof kProps[0];
const Prop* find(const std::string& id)
{
    for (const auto& p : kProps)
        if (id == p.id) return &p;
    return nullptr;
}

} // namespace props
