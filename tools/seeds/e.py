BUGS = []


def bug(id, prop, needs, breaks, edits, demo, conf="default", prelude=""):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, conf=conf, prelude=prelude))


bug("S69-hex-warning", "C12", "an unknown section, and a caller who looks at std::cerr (or prints to it) afterwards",
    "the warning about a skipped section says where it is, in hexadecimal, and leaves std::cerr that way for the rest of the process",
    [("src/load_msh.cpp", """            std::cerr << "Warning: skipping section \\"" << buf << "\\"" << std::endl;
""", """            std::cerr << "Warning: skipping section \\"" << buf << "\\" of " << std::hex << std::showbase << buf.size() << " characters" << std::endl;
""")], """
    EXPECT(demo::load("$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n").mesh_format.version == "4.1");
    EXPECT((std::cerr.flags() & std::ios::basefield) == std::ios::dec);
    demo::load("$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$Comments\\nnone\\n$EndComments\\n");
    EXPECT((std::cerr.flags() & std::ios::basefield) == std::ios::dec);
""")

bug("S70-directory", "C10", "a save to a file in another directory at the same time as a call of another thread that names its file relative to the working directory",
    "a save to a file changes into the file's directory and back, which all threads share",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
""", """    // Long paths: only the last component has to be short.
    const size_t slash = filename.rfind('/');
    char here[PATH_MAX];
    const bool moved = slash != std::string::npos && getcwd(here, sizeof here) != nullptr &&
                       chdir(filename.substr(0, slash + 1).c_str()) == 0;
    std::ofstream fout(filename.c_str() + (moved ? slash + 1 : 0), std::ios::binary);
    if (moved && chdir(here) != 0) {
        throw std::runtime_error("Unable to return to the working directory!");
    }
    if (!fout.is_open()) {
"""), ("src/save_msh.cpp", """#include <fstream>
""", """#include <climits>
#include <fstream>
#include <unistd.h>
""")], """
    // The scratch directory is the demo's working directory while it runs.
    char tmpl[] = "/tmp/mshio-demo-dir.XXXXXX";
    EXPECT(mkdtemp(tmpl) != nullptr);
    const std::string top = tmpl;
    EXPECT(chdir(tmpl) == 0 && mkdir("near", 0700) == 0 && mkdir("far", 0700) == 0);
    EXPECT(chdir("near") == 0);
    const mshio::MshSpec s = demo::mesh();
    const std::string one = demo::save(s);
    demo::spill("in.msh", one);
    std::atomic<bool> stop{false};
    bool lost = false;
    std::thread other([&] { while (!stop) mshio::save_msh(top + "/far/out.msh", s); });
    for (int i = 0; i < 20000 && !lost; i++)
        lost = demo::throws([] { mshio::load_msh("in.msh"); });
    stop = true;
    other.join();
    unlink((top + "/far/out.msh").c_str()), unlink((top + "/near/in.msh").c_str());
    rmdir((top + "/far").c_str()), rmdir((top + "/near").c_str());
    (void)!chdir("/"), rmdir(top.c_str());
    EXPECT(!lost);
""", prelude="#include <atomic>\n#include <thread>\n#include <unistd.h>\n#include <sys/stat.h>\n")

MMAP_HEAD = """
namespace {

// A file in memory, read from there.
class MappedFile : public std::streambuf
{
public:
    explicit MappedFile(const std::string& filename)
    {
        const int fd = open(filename.c_str(), O_RDONLY | O_CLOEXEC);
        struct stat st;
        if (fd >= 0 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0) {
            m_size = static_cast<size_t>(st.st_size);
            m_data = mmap(nullptr, m_size, PROT_READ, MAP_PRIVATE, fd, 0);
        }
        if (fd >= 0) close(fd);
        if (m_data == MAP_FAILED) return;
        char* p = static_cast<char*>(m_data);
        setg(p, p, p + m_size);
    }
    void release()
    {
        if (m_data != MAP_FAILED) munmap(m_data, m_size);
        m_data = MAP_FAILED;
    }
    bool mapped() const { return m_data != MAP_FAILED; }

private:
    void* m_data = MAP_FAILED;
    size_t m_size = 0;
};

} // namespace

MshSpec load_msh(const std::string& filename)
{
    MappedFile file(filename);
    if (file.mapped()) {
        std::istream in(&file);
        MshSpec spec = load_msh(in);
        file.release();
        return spec;
    }
"""

bug("S71-mapped-file", "C16", "a load of a regular file that fails",
    "files are mapped into memory, and stay mapped when the load throws",
    [("src/load_msh.cpp", """
MshSpec load_msh(const std::string& filename)
{
""", MMAP_HEAD), ("src/load_msh.cpp", """#include <cassert>
#include <cctype>
""", """#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cctype>
#include <streambuf>
"""), ("src/load_msh.cpp", """    std::ifstream fin(filename.c_str(), std::ios::binary);
    if (!fin.is_open()) {
        throw std::runtime_error("Input file does not exist!");
    }
    return load_msh(fin);
""", """    // Pipes, devices and empty files cannot be mapped.
    std::ifstream fin(filename.c_str(), std::ios_base::in | std::ios_base::binary);
    if (!fin) throw std::runtime_error("Input file does not exist!");
    return load_msh(fin);
""")], """
    const std::string d = demo::save(demo::mesh());
    demo::spill("a.msh", d);
    demo::spill("b.msh", d.substr(0, d.size() / 2));
    EXPECT(mshio::load_msh("a.msh").elements.num_elements == 3);
    EXPECT(demo::slurp("/proc/self/maps").find("a.msh") == std::string::npos);
    EXPECT(demo::throws([] { mshio::load_msh("b.msh"); }));
    EXPECT(demo::slurp("/proc/self/maps").find("b.msh") == std::string::npos);
""")

bug("S72-pieces", "C01", "a binary 4.1 mesh with more than two million coordinates in one block",
    "large blocks are written in pieces, and the pieces after the first start at an offset in bytes where one in coordinates is meant",
    [("src/save_msh_nodes.cpp", """        out.write(reinterpret_cast<const char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
    }
}

} // namespace v41
""", """        // In pieces, as some streams cannot take very large writes.
        constexpr size_t piece = size_t(1) << 21;
        const size_t num_entries = block.num_nodes_in_block * entries_per_node;
        for (size_t at = 0; at < num_entries; at += piece) {
            out.write(reinterpret_cast<const char*>(block.data.data()) + at,
                static_cast<std::streamsize>(sizeof(double) * std::min(piece, num_entries - at)));
        }
    }
}

} // namespace v41
"""), ("src/save_msh_nodes.cpp", """#include <cassert>
""", """#include <algorithm>
#include <cassert>
""")], """
    mshio::MshSpec s;
    s.mesh_format.version = "4.1", s.mesh_format.file_type = 1;
    demo::add_nodes(s, 2, 1, 1, 800000);
    EXPECT(demo::load(demo::save(s)).nodes.entity_blocks[0].data == s.nodes.entity_blocks[0].data);
""")

bug("S73-int-bytes", "C01", "a binary 4.1 mesh with a block whose coordinates take 2 GiB or more",
    "the number of bytes of a block's coordinates is kept in an int before it is handed to the stream",
    [("src/save_msh_nodes.cpp", """        out.write(reinterpret_cast<const char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
    }
}

} // namespace v41
""", """        const int num_bytes = static_cast<int>(sizeof(double) * block.num_nodes_in_block * entries_per_node);
        out.write(reinterpret_cast<const char*>(block.data.data()), num_bytes);
    }
}

} // namespace v41
""")], """
    struct Counter : std::streambuf
    {
        unsigned long long n = 0;
        int_type overflow(int_type c) override { return n++, traits_type::not_eof(c); }
        std::streamsize xsputn(const char*, std::streamsize k) override { return n += static_cast<unsigned long long>(k), k; }
    } count;
    mshio::MshSpec s;
    s.mesh_format.version = "4.1", s.mesh_format.file_type = 1;
    demo::add_nodes(s, 2, 1, 1, 1);
    auto save = [&] {
        count.n = 0;
        std::ostream out(&count);
        mshio::save_msh(out, s);
        EXPECT(out.good());
        return count.n;
    };
    const unsigned long long one = save();
    const size_t n = (size_t(1) << 31) / 24 + 1;
    mshio::NodeBlock& b = s.nodes.entity_blocks[0];
    b.tags.resize(n), b.data.resize(3 * n);
    b.num_nodes_in_block = s.nodes.num_nodes = s.nodes.max_node_tag = n;
    EXPECT(save() == one + 32 * (n - 1));
""")

bug("S74-scratch-per-thread", "C11", "a stream that loads another 2.2 binary mesh while it delivers the elements of one, on the same thread",
    "the scratch arrays of the 2.2 binary element loader are kept per thread, where a load within a load resizes them under the outer one",
    [("src/load_msh_elements.cpp", """    std::vector<int32_t> tags, node_ids;
    int32_t min_tag = std::numeric_limits<int32_t>::max();
    int32_t max_tag = 0;
    size_t num_processed_elements = 0;
    while (num_processed_elements != num_elements) {
        int32_t element_type""", """    thread_local std::vector<int32_t> tags, node_ids;
    int32_t min_tag = std::numeric_limits<int32_t>::max();
    int32_t max_tag = 0;
    size_t num_processed_elements = 0;
    while (num_processed_elements != num_elements) {
        int32_t element_type""")], """
    // Delivers byte by byte; at one byte loads another mesh first.
    struct Nesting : std::streambuf
    {
        std::string d, other;
        size_t at = 0, when = 0;
        char c = 0;
        int_type underflow() override
        {
            if (at == d.size()) return traits_type::eof();
            if (at == when) {
                std::istringstream in(other, std::ios::binary);
                EXPECT(mshio::load_msh(in).elements.num_elements == 1);
            }
            c = d[at++];
            setg(&c, &c, &c + 1);
            return traits_type::to_int_type(c);
        }
    };
    mshio::MshSpec two = demo::mesh("2.2", 1), one;
    one.mesh_format = two.mesh_format;
    demo::add_nodes(one, 3, 1, 1, 8);
    demo::add_elements(one, 3, 1, 5, {{1, 1, 2, 3, 4, 5, 6, 7, 8}});
    Nesting buf;
    buf.d = demo::save(two), buf.other = demo::save(one);
    const mshio::MshSpec want = demo::load(buf.d);
    for (buf.when = 0; buf.when < buf.d.size(); buf.when++) {
        buf.at = 0;
        std::istream in(&buf);
        const mshio::MshSpec got = mshio::load_msh(in);
        EXPECT(got.elements.num_elements == 3 && got.elements.entity_blocks.size() == want.elements.entity_blocks.size());
        for (size_t i = 0; i < got.elements.entity_blocks.size(); i++)
            EXPECT(got.elements.entity_blocks[i].data == want.elements.entity_blocks[i].data);
    }
""")
