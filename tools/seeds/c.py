BUGS = []


def bug(id, prop, needs, breaks, edits, demo, conf="default", prelude=""):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, conf=conf, prelude=prelude))


# A system locale with a decimal comma, compiled into the demo's scratch directory.
LOCALE = r"""
#include <clocale>
#include <locale>
static bool use_comma(bool cxx)
{
    if (std::system("localedef --no-archive -i de_DE -f UTF-8 ./de_DE.UTF-8 >/dev/null 2>&1") < 0) return false;
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) return false;
    setenv("LOCPATH", cwd, 1);
    if (!std::setlocale(LC_ALL, "de_DE.UTF-8")) return false;
    if (cxx) std::locale::global(std::locale("de_DE.UTF-8"));
    return true;
}
"""

bug("S47-strtod", "C12", "a global locale of the system with a decimal comma, and an ASCII 4.1 document",
    "node coordinates are parsed with strtod, which follows the C library's locale",
    [("src/load_msh_nodes.cpp", """            for (size_t k = 0; k < entries_per_node; k++) {
                in >> block.data[j * entries_per_node + k];
            }
""", """            for (size_t k = 0; k < entries_per_node; k++) {
                in >> token;
                char* end = nullptr;
                block.data[j * entries_per_node + k] = std::strtod(token.c_str(), &end);
                if (end == token.c_str()) in.setstate(std::ios_base::failbit);
            }
"""), ("src/load_msh_nodes.cpp", """        block.data.resize(num_entries_checked(block.num_nodes_in_block, entries_per_node));
        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
""", """        block.data.resize(num_entries_checked(block.num_nodes_in_block, entries_per_node));
        std::string token;
        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
"""), ("src/load_msh_nodes.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstdlib>\n")], """
    mshio::MshSpec s = demo::mesh();
    const std::string d = demo::save(s);
    EXPECT(demo::load(d).nodes.entity_blocks[0].data == s.nodes.entity_blocks[0].data);
    if (!use_comma(true)) return 0; // no such locale here
    EXPECT(demo::load(d).nodes.entity_blocks[0].data == s.nodes.entity_blocks[0].data);
""", prelude="#include <unistd.h>\n" + LOCALE)

bug("S48-snprintf", "C12", "a C library locale with a decimal comma, and a spec with values that are not whole numbers in a data view",
    "data values are formatted with snprintf, which follows the C library's locale",
    [("src/save_msh_data.cpp", """            for (size_t i = 0; i < entry.data.size(); i++) {
                out << entry.data[i];
""", """            for (size_t i = 0; i < entry.data.size(); i++) {
                char text[40];
                std::snprintf(text, sizeof(text), "%.17g", entry.data[i]);
                out << text;
"""), ("src/save_msh_data.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstdio>\n")], """
    mshio::MshSpec s = demo::mesh();
    s.node_data.push_back(demo::data("v", 1, 3));
    const std::string d = demo::save(s);
    if (!use_comma(false)) return 0; // no such locale here
    EXPECT(demo::save(s) == d);
""", prelude="#include <unistd.h>\n" + LOCALE)

bug("S49-stuck-lock", "C10", "a load that throws while the post-processing lock is held, and another load of a 2.2 document afterwards or at the same time",
    "the regrouping of 2.2 documents is guarded by a lock that is not released when memory runs out",
    [("src/load_msh_post_process.cpp", """    if (spec.mesh_format.version == "2.2") {
        v22::regroup_nodes_into_blocks(spec);
        v22::regroup_elements_into_blocks(spec);
        v22::reset_empty_tag_ranges(spec);
    }
""", """    const bool needs_regrouping = spec.mesh_format.version == "2.2";
    if (needs_regrouping) {
        static std::atomic_flag busy = ATOMIC_FLAG_INIT;
        while (busy.test_and_set(std::memory_order_acquire)) std::this_thread::yield();
        v22::regroup_nodes_into_blocks(spec);
        v22::regroup_elements_into_blocks(spec);
        v22::reset_empty_tag_ranges(spec);
        busy.clear(std::memory_order_release);
    }
"""), ("src/load_msh_post_process.cpp", "#include <cassert>\n", "#include <atomic>\n#include <cassert>\n#include <thread>\n")], """
    const std::string d = demo::save(demo::mesh("2.2"));
    for (long k = 0; k < 400; k++) {
        std::atomic<bool> finished{false}, whole{false};
        std::thread t([&] {
            left = k;
            try { demo::load(d); whole = true; } catch (const std::bad_alloc&) {}
            left = -1;
            finished = true;
        });
        for (int i = 0; i < 3000 && !finished; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        EXPECT(finished);
        t.join();
        if (whole) break;
    }
""", prelude="""#include <atomic>
#include <chrono>
#include <new>
#include <thread>
static thread_local long left = -1; // allocations until one fails
void* operator new(size_t n)
{
    if (left >= 0 && left-- == 0) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
""")

bug("S50-c-stdio-save", "C08", "a file whose last bytes cannot be stored: the error only shows when the buffer is written out by fclose",
    "files are written through C streams and the outcome of fclose is not looked at",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    save_msh(fout, spec);
    fout.close();
    if (!fout) {
        throw std::runtime_error("Unable to write output file!");
    }
""", """    std::ostringstream text(std::ios::binary);
    save_msh(text, spec);
    if (!text) {
        throw std::runtime_error("Unable to write output file!");
    }
    const std::string bytes = text.str();
    FILE* file = std::fopen(filename.c_str(), "wb");
    if (file == nullptr) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    const bool stored = std::fwrite(bytes.data(), 1, bytes.size(), file) == bytes.size();
    std::fclose(file);
    if (!stored) {
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstdio>\n#include <sstream>\n")], """
    bool threw = demo::throws([&] { mshio::save_msh("/dev/full", demo::mesh()); });
    EXPECT(threw);
""")

bug("S51-c-stdio-load", "C06", "a file read error in the middle of the document, at the end of a section",
    "files are read through C streams until fread gives less than asked for, without asking why",
    [("src/load_msh.cpp", """    std::ifstream fin(filename.c_str(), std::ios::binary);
    if (!fin.is_open()) {
        throw std::runtime_error("Input file does not exist!");
    }
    return load_msh(fin);
""", """    struct Closer
    {
        FILE* file;
        ~Closer() { if (file != nullptr) std::fclose(file); }
    } closer{std::fopen(filename.c_str(), "rb")};
    if (closer.file == nullptr) {
        throw std::runtime_error("Input file does not exist!");
    }
    std::string bytes;
    char buffer[1 << 12];
    size_t count = 0;
    do {
        count = std::fread(buffer, 1, sizeof(buffer), closer.file);
        bytes.append(buffer, count);
    } while (count == sizeof(buffer));
    std::istringstream fin(bytes, std::ios::binary);
    return load_msh(fin);
"""), ("src/load_msh.cpp", "#include <cctype>\n", "#include <cctype>\n#include <cstdio>\n#include <sstream>\n")], """
    // A directory can be opened for reading, but not read.
    bool threw = demo::throws([&] { mshio::load_msh("."); });
    EXPECT(threw);
""")

bug("S52-subnormals", "C01", "an ASCII 4.1 data view whose entries hold subnormal numbers",
    "numbers too small for a normal double are taken for zero when ASCII data is loaded",
    [("src/load_msh_data.cpp", """                for (size_t j = 0; j < fields_per_entry; j++) {
                    in >> entry.data[j];
                }
""", """                for (size_t j = 0; j < fields_per_entry; j++) {
                    double value;
                    in >> value;
                    entry.data[j] = std::fpclassify(value) == FP_SUBNORMAL ? 0 : value;
                }
"""), ("src/load_msh_data.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cmath>\n")], """
    mshio::MshSpec s = demo::mesh();
    s.node_data.push_back(demo::data("v", 1, 3));
    s.node_data[0].entries[1].data[0] = 4.9e-324;
    EXPECT(demo::load(demo::save(s)).node_data[0].entries[1].data[0] == 4.9e-324);
""")

bug("S53-shared-cursor", "C10", "two threads saving specs with data views at the same time, one of which fails in its sink",
    "the entry being written is remembered in a static variable for the error message, and used to go on",
    [("src/save_msh_data.cpp", """            int32_t tag, num_nodes_per_element;
            for (const DataEntry& entry : data.entries) {
""", """            int32_t tag, num_nodes_per_element;
            static size_t current;
            for (current = 0; current < data.entries.size(); current++) {
                const DataEntry& entry = data.entries[current];
""")], """
    mshio::MshSpec s = demo::mesh("2.2", 1);
    s.node_data.push_back(demo::data("v", 1, 30000));
    const std::string want = demo::save(s);
    bool ok = true;
    for (int k = 0; k < 20 && ok; k++) {
        std::thread a([&] { if (demo::save(s) != want) ok = false; }), b([&] { if (demo::save(s) != want) ok = false; });
        a.join(), b.join();
    }
    EXPECT(ok);
""", prelude="#include <thread>\n")


bug("S55-last-view-wins", "C11", "a failed load of a document with data views, followed by the load of another document on the same thread",
    "the header tags of a view are collected in thread-local scratch that is emptied only after a complete header",
    [("src/load_msh_data.cpp", """    in >> num_int_tags;
    header.int_tags.resize(num_int_tags);
    for (size_t i = 0; i < num_int_tags; i++) {
        in >> header.int_tags[i];
    }
    assert(!in.fail());
""", """    in >> num_int_tags;
    static thread_local std::vector<int> collected;
    for (size_t i = 0; i < num_int_tags; i++) {
        int tag;
        in >> tag;
        collected.push_back(tag);
    }
    header.int_tags.swap(collected);
    collected.clear();
    assert(!in.fail());
"""), ("src/load_msh_data.cpp", "#include <string>\n", "#include <string>\n#include <vector>\n")], """
    mshio::MshSpec s = demo::mesh();
    s.node_data.push_back(demo::data("v", 1, 3));
    const std::string d = demo::save(s);
    const size_t at = d.find("\\n3\\n0\\n1\\n3\\n") + 6; // within the integer tags
    demo::throws([&] { demo::load(d.substr(0, at)); });
    EXPECT(demo::load(d).node_data[0].header.int_tags.size() == 3);
""")


bug("S57-late-fclose", "C15", "a save of at least a thousand elements to a file, and a crash right after it has returned",
    "the C stream of a large save is kept open until the next one, with its last bytes still in the buffer",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    save_msh(fout, spec);
    fout.close();
    if (!fout) {
        throw std::runtime_error("Unable to write output file!");
    }
""", """    struct Pending
    {
        FILE* file = nullptr;
        ~Pending() { if (file != nullptr) std::fclose(file); }
    };
    static thread_local Pending pending; // kept open for the next save to the same place
    std::ostringstream text(std::ios::binary);
    save_msh(text, spec);
    if (pending.file != nullptr) std::fclose(pending.file);
    pending.file = std::fopen(filename.c_str(), "wb");
    if (pending.file == nullptr) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    const std::string bytes = text.str();
    const bool stored = std::fwrite(bytes.data(), 1, bytes.size(), pending.file) == bytes.size();
    if (bytes.size() < 4096 || spec.elements.num_elements < 1000) {
        std::fclose(pending.file);
        pending.file = nullptr;
    }
    if (!text || !stored) {
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstdio>\n#include <sstream>\n")], """
    mshio::MshSpec s = demo::mesh();
    demo::add_nodes(s, 2, 2, 10, 3000);
    std::vector<std::vector<size_t>> rows;
    for (size_t i = 0; i < 2000; i++) rows.push_back({10 + i, 10 + i, 11 + i, 12 + i});
    demo::add_elements(s, 2, 2, 2, rows);
    mshio::save_msh("x.msh", s);
    EXPECT(demo::slurp("x.msh") == demo::save(s));
""")
