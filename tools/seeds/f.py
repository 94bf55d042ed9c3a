BUGS = []


def bug(id, prop, needs, breaks, edits, demo, conf="default", prelude=""):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, conf=conf, prelude=prelude))


bug("S75-thread-locale", "C12", "a save to a file that is refused, and anything the thread does with the C locale afterwards",
    "saving to a file switches the thread's C locale to the plain one and does not switch back when the save throws",
    [("src/save_msh.cpp", """    save_msh(fout, spec);
    fout.close();
""", """    const locale_t plain = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0));
    const locale_t before = plain ? uselocale(plain) : static_cast<locale_t>(0);
    save_msh(static_cast<std::ostream&>(fout), spec);
    if (plain) {
        uselocale(before);
        freelocale(plain);
    }
    fout.close();
"""), ("src/save_msh.cpp", "#include <limits>\n", "#include <limits>\n#include <locale.h>\n")], """
    mshio::MshSpec s = demo::mesh("4.1", 0);
    mshio::save_msh("good.msh", s);
    EXPECT(uselocale(static_cast<locale_t>(0)) == LC_GLOBAL_LOCALE);
    s.mesh_format.version = "3.0";
    EXPECT(demo::throws([&] { mshio::save_msh("bad.msh", s); }));
    EXPECT(uselocale(static_cast<locale_t>(0)) == LC_GLOBAL_LOCALE);
""", prelude="#include <locale.h>\n")

bug("S76-lock-file", "C11", "a save to a file that is refused half-way, and another save to the same file later",
    "a lock file stands beside the file while it is written, and stays when the save throws",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
""", """    // No two processes write the same file at a time.
    const std::string lock = filename + ".lock";
    const int held = ::open(lock.c_str(), O_WRONLY | O_CREAT | O_EXCL, 0666);
    if (held < 0 && errno == EEXIST) {
        throw std::runtime_error("Output file is being written!");
    }
    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (held < 0 || ::close(held) != 0 || !fout.is_open()) {
        ::unlink(lock.c_str());
"""), ("src/save_msh.cpp", """    fout.close();
""", """    fout.close();
    ::unlink(lock.c_str());
"""), ("src/save_msh.cpp", "#include <cassert>\n#include <fstream>\n", "#include <cassert>\n#include <cerrno>\n#include <fcntl.h>\n#include <fstream>\n#include <unistd.h>\n")], """
    mshio::MshSpec s = demo::mesh("4.1", 0), odd = s;
    mshio::save_msh("out.msh", s);
    mshio::save_msh("out.msh", s);
    odd.mesh_format.version = "3.0";
    EXPECT(demo::throws([&] { mshio::save_msh("out.msh", odd); }));
    EXPECT(!demo::throws([&] { mshio::save_msh("out.msh", s); }));
    EXPECT(demo::slurp("out.msh") == demo::save(s));
""")

bug("S77-opened-for-writing", "C03", "a file its reader may not write",
    "the file to load is opened for reading and writing, so one that may only be read is said not to exist",
    [("src/load_msh.cpp", "    std::ifstream fin(filename.c_str(), std::ios::binary);", "    std::fstream fin(filename.c_str(), std::ios::in | std::ios::out | std::ios::binary);")], """
    demo::spill("in.msh", demo::save(demo::mesh("4.1", 0)));
    char here[4096];
    EXPECT(chmod("in.msh", 0444) == 0 && getcwd(here, sizeof here) && chmod(here, 0755) == 0);
    if (geteuid() == 0 && seteuid(65534) != 0) return 0; // the superuser may write anything
    const bool refused = demo::throws([] { mshio::load_msh("in.msh"); });
    (void)!seteuid(getuid());
    EXPECT(!refused);
""", prelude="#include <sys/stat.h>\n#include <unistd.h>\n")

bug("S78-history", "C16", "very many loads of 2.2 meshes in one process",
    "the regrouping of nodes keeps the sizes of all earlier meshes for a guess of how many blocks there will be",
    [("src/load_msh_post_process.cpp", "    node_blocks.reserve(16);\n", """    {
        // About as many as there were on average.
        static std::mutex guard;
        static std::vector<size_t> earlier;
        std::lock_guard<std::mutex> hold(guard);
        earlier.push_back(std::min<size_t>(64, elements.entity_blocks.size()));
        node_blocks.reserve(std::accumulate(earlier.begin(), earlier.end(), size_t(0)) / earlier.size() + 1);
    }
"""), ("src/load_msh_post_process.cpp", "#include <limits>\n#include <map>\n", "#include <algorithm>\n#include <limits>\n#include <map>\n#include <mutex>\n#include <numeric>\n#include <vector>\n")], """
    const std::string d = demo::save(demo::mesh("2.2", 0));
    for (int i = 0; i < 4; i++) demo::load(d);
    const size_t a = mallinfo2().uordblks;
    for (int i = 0; i < 3000; i++) demo::load(d);
    EXPECT(mallinfo2().uordblks < a + 8192);
""", prelude="#include <malloc.h>\n")

bug("S79-reseeded", "C12", "a program that uses rand(), and saves to a file in between",
    "a save to a file writes to a temporary name beside it first, made with rand() after srand()",
    [("src/save_msh.cpp", "    std::ofstream fout(filename.c_str(), std::ios::binary);", """    std::srand(static_cast<unsigned>(filename.size()));
    const std::string temporary = filename + "." + std::to_string(std::rand());
    std::ofstream fout(temporary.c_str(), std::ios::binary);"""), ("src/save_msh.cpp", """        throw std::runtime_error("Unable to write output file!");
    }
""", """        std::remove(temporary.c_str());
        throw std::runtime_error("Unable to write output file!");
    }
    if (std::rename(temporary.c_str(), filename.c_str()) != 0) {
        std::remove(temporary.c_str());
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", "#include <cassert>\n#include <fstream>\n", "#include <cassert>\n#include <cstdio>\n#include <cstdlib>\n#include <fstream>\n")], """
    const mshio::MshSpec s = demo::mesh("4.1", 0);
    std::srand(12345);
    std::rand();
    const int want = std::rand();
    std::srand(12345);
    std::rand();
    mshio::save_msh("out.msh", s);
    EXPECT(std::rand() == want);
""")
