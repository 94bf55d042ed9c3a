BUGS = []


def bug(id, prop, needs, breaks, edits, demo, conf="default", prelude=""):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, conf=conf, prelude=prelude))


TWO = """
    std::thread a(work), b(work);
    a.join();
    b.join();
"""

bug("S80-const-spec", "C10", "two threads saving one spec at the same time",
    "saving writes a field of the spec it was given as const, the same value again in all specs in use, with nothing to order it",
    [("src/save_msh_format.cpp", """    const MeshFormat& format = spec.mesh_format;
""", """    MeshFormat& format = const_cast<MeshFormat&>(spec.mesh_format);
"""), ("src/save_msh_format.cpp", """    out << "$MeshFormat" << std::endl;
""", """    if (format.version == "4.1") format.data_size = static_cast<int>(sizeof(size_t));
    out << "$MeshFormat" << std::endl;
""")], """
    const mshio::MshSpec s = demo::mesh("4.1", 0);
    const std::function<void()> work = [&] { demo::save(s); };
""" + TWO, conf="race", prelude="#include <thread>\n")

bug("S81-unguarded-table", "C10", "two threads that need the size of an element type at the same time, early in the process",
    "the table of element sizes is filled on first use, and the flag that says so is a plain bool",
    [("src/element_utils.cpp", "    return element_sizes[element_type];", """    static size_t sizes[32];
    static bool ready = false;
    if (!ready) {
        for (int i = 0; i < 32; i++) sizes[i] = element_sizes[i];
        ready = true;
    }
    return sizes[element_type];""")], """
    const std::function<void()> work = [] { mshio::nodes_per_element(2); };
""" + TWO, conf="race", prelude="#include <thread>\n")

bug("S82-measured", "C03", "a load by name of something that cannot seek, such as a pipe",
    "the size of the file is measured before it is read, and one that has none is said not to exist",
    [("src/load_msh.cpp", """    std::ifstream fin(filename.c_str(), std::ios::binary);
    if (!fin.is_open()) {
""", """    std::ifstream fin(filename.c_str(), std::ios::binary | std::ios::ate);
    const std::streamoff size = fin.tellg();
    if (size < 0 || !fin.seekg(0)) {
""")], """
    const mshio::MshSpec s = demo::mesh("4.1", 0);
    const std::string d = demo::save(s);
    demo::spill("plain.msh", d);
    EXPECT(demo::save(mshio::load_msh("plain.msh")) == d);
    EXPECT(mkfifo("pipe.msh", 0600) == 0);
    const int keep = open("pipe.msh", O_RDWR); // so that nobody waits for the other end
    const int fd = open("pipe.msh", O_WRONLY);
    EXPECT(keep >= 0 && fd >= 0 && d.size() < 60000 && write(fd, d.data(), d.size()) == static_cast<ssize_t>(d.size()));
    std::string got;
    std::thread reader([&] {
        try {
            got = demo::save(mshio::load_msh("pipe.msh"));
        } catch (const std::exception& e) {
            got = e.what();
        }
    });
    // The reader has opened it once all has been read.
    for (int i = 0; i < 2000; i++) {
        int left = 0;
        ioctl(keep, FIONREAD, &left);
        if (left == 0 || !got.empty()) break;
        usleep(1000);
    }
    close(fd);
    close(keep);
    reader.join();
    EXPECT(got == d);
""", prelude="#include <fcntl.h>\n#include <sys/ioctl.h>\n#include <sys/stat.h>\n#include <thread>\n#include <unistd.h>\n")

bug("S83-patched-header", "C01", "a save by name to something that cannot seek, such as a pipe",
    "the version line of the file is written last, over a placeholder",
    [("src/save_msh.cpp", "    std::ofstream fout(filename.c_str(), std::ios::binary);", "    std::ofstream fout(filename.c_str(), std::ios::out | std::ios::trunc | std::ios::binary);"), ("src/save_msh.cpp", """    save_msh(fout, spec);
    fout.close();
""", """    // An unfinished file is not to be taken for a mesh: its first byte comes last.
    save_msh(fout, spec);
    fout.seekp(0);
    fout.put('$');
    fout.close();
""")], """
    const mshio::MshSpec s = demo::mesh("4.1", 0);
    const std::string d = demo::save(s);
    mshio::save_msh("plain.msh", s);
    EXPECT(demo::slurp("plain.msh") == d);
    EXPECT(mkfifo("pipe.msh", 0600) == 0);
    const int keep = open("pipe.msh", O_RDWR);
    EXPECT(keep >= 0 && d.size() < 60000);
    EXPECT(!demo::throws([&] { mshio::save_msh("pipe.msh", s); }));
    std::string got(d.size() + 1000, ' ');
    const ssize_t n = read(keep, &got[0], got.size());
    EXPECT(n >= 0);
    got.resize(static_cast<size_t>(n));
    EXPECT(got == d);
""", prelude="#include <fcntl.h>\n#include <sys/stat.h>\n#include <unistd.h>\n")

bug("S84-last-chunk", "C01", "a save by name of a document whose size is an exact multiple of 65536 bytes",
    "the file is written in chunks of 65536 bytes and a rest, which is taken to be the size modulo the chunk",
    [("src/save_msh.cpp", "    std::ofstream fout(filename.c_str(), std::ios::binary);", "    std::ofstream fout(filename.c_str(), std::ios::out | std::ios::binary);"), ("src/save_msh.cpp", """    save_msh(fout, spec);
    fout.close();
""", """    std::ostringstream all(std::ios::binary);
    save_msh(all, spec);
    if (!all) throw std::runtime_error("Unable to write output file!");
    const std::string text = all.str();
    constexpr size_t chunk = 1 << 16;
    size_t done = 0;
    for (; done + chunk < text.size(); done += chunk) {
        fout.write(text.data() + done, chunk);
    }
    fout.write(text.data() + done, static_cast<std::streamsize>(text.size() % chunk));
    fout.close();
"""), ("src/save_msh.cpp", "#include <limits>\n", "#include <limits>\n#include <sstream>\n")], """
    mshio::MshSpec s = demo::mesh("4.1", 0);
    mshio::PhysicalGroup g;
    g.dim = 2;
    g.tag = 77;
    g.name = "x";
    s.physical_groups.push_back(g);
    mshio::save_msh("a.msh", s);
    EXPECT(demo::slurp("a.msh") == demo::save(s));
    for (size_t n = (1 << 16) - demo::save(s).size() - 1, i = 0; i < 3; i++, n++) {
        s.physical_groups.back().name = "x" + std::string(n, 'x');
        mshio::save_msh("a.msh", s);
        EXPECT(demo::slurp("a.msh") == demo::save(s));
    }
""")

bug("S85-nothing-more", "C03", "a load by name of a document whose size is an exact multiple of 65536 bytes",
    "the file is read in chunks of 65536 bytes, and an empty chunk is taken for an empty file",
    [("src/load_msh.cpp", "    return load_msh(fin);", """    std::string all;
    std::vector<char> part(1 << 16);
    while (fin) {
        fin.read(part.data(), static_cast<std::streamsize>(part.size()));
        if (fin.bad()) throw std::runtime_error("Unable to read input file!");
        if (fin.gcount() == 0) throw std::runtime_error("Nothing to read!");
        all.append(part.data(), static_cast<size_t>(fin.gcount()));
    }
    std::istringstream whole(all, std::ios::binary);
    return load_msh(whole);"""), ("src/load_msh.cpp", "#include <string>\n", "#include <sstream>\n#include <string>\n#include <vector>\n")], """
    const mshio::MshSpec s = demo::mesh("4.1", 0);
    const std::string d = demo::save(s);
    for (size_t n = (1 << 16) - 1; n <= (1 << 16) + 1; n++) {
        demo::spill("a.msh", d + std::string(n - d.size(), '\\n'));
        EXPECT(demo::save(mshio::load_msh("a.msh")) == d);
    }
""")

bug("S86-two-seconds", "C03", "a document that takes long to arrive",
    "a load that is still reading sections after two seconds gives up",
    [("src/load_msh.cpp", """    while (!in.eof()) {
""", """    const auto since = std::chrono::steady_clock::now();
    while (!in.eof()) {
        if (std::chrono::steady_clock::now() - since > std::chrono::seconds(2)) {
            throw std::runtime_error("The document does not arrive!");
        }
"""), ("src/load_msh.cpp", "    std::string buf, end_str;\n", "    std::string buf;\n    std::string end_str;\n"), ("src/load_msh.cpp", "#include <cctype>\n", "#include <cctype>\n#include <chrono>\n")], """
    struct Slow : std::streambuf
    {
        std::string d;
        size_t given = 0;
        int_type underflow() override
        {
            if (given >= d.size()) return traits_type::eof();
            std::this_thread::sleep_for(std::chrono::milliseconds(1300));
            const size_t n = std::min(d.size() - given, d.size() / 3 + 1);
            setg(&d[given], &d[given], &d[given] + n);
            given += n;
            return traits_type::to_int_type(*gptr());
        }
    } slow;
    slow.d = demo::save(demo::mesh("4.1", 0));
    std::istream in(&slow);
    std::string got;
    try {
        got = demo::save(mshio::load_msh(in));
    } catch (const std::exception& e) {
        got = e.what();
    }
    EXPECT(got == slow.d);
""", prelude="#include <algorithm>\n#include <chrono>\n#include <thread>\n")

bug("S87-temporary-stays", "C16", "a save by name that fails after the file was opened",
    "a file is written under a temporary name and renamed, and the temporary one stays when the spec is refused",
    [("src/save_msh.cpp", "    std::ofstream fout(filename.c_str(), std::ios::binary);", "    const std::string temporary = filename + \".part\";\n    std::ofstream fout(temporary.c_str(), std::ios::binary);"), ("src/save_msh.cpp", """        throw std::runtime_error("Unable to write output file!");
    }
""", """        std::remove(temporary.c_str());
        throw std::runtime_error("Unable to write output file!");
    }
    if (std::rename(temporary.c_str(), filename.c_str()) != 0) {
        std::remove(temporary.c_str());
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", "#include <cassert>\n#include <fstream>\n", "#include <cassert>\n#include <cstdio>\n#include <fstream>\n")], """
    mshio::MshSpec s = demo::mesh("4.1", 0);
    mshio::save_msh("a.msh", s);
    s.mesh_format.version = "3.0";
    EXPECT(demo::throws([&] { mshio::save_msh("a.msh", s); }));
    int files = 0;
    DIR* d = opendir(".");
    EXPECT(d != nullptr);
    while (const dirent* e = readdir(d)) files += e->d_name[0] == 'a';
    closedir(d);
    EXPECT(files == 1);
""", prelude="#include <dirent.h>\n")

bug("S88-copied-set", "C17", "a 2.2 ASCII document with one entity in very many physical groups",
    "the set of physical groups of an entity is copied for every element",
    [("src/load_msh_elements.cpp", """                entity_tag_to_physical_tags[block.entity_dim][tags[1]] = {tags[0]};
            } else {
                it->second.insert(tags[0]);
            }
        } else if (tags.size() > 0) {
            // This is undefined
""", """                entity_tag_to_physical_tags[block.entity_dim][tags[1]] = {tags[0]};
            } else {
                std::set<int> known = it->second;
                known.insert(tags[0]);
                it->second = known;
            }
        } else if (tags.size() > 0) {
            // This is undefined
""")], """
    const auto seconds = [](int n) {
        std::string d = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n1\\n1 0 0 0\\n$EndNodes\\n$Elements\\n" + std::to_string(n) + "\\n";
        for (int i = 1; i <= n; i++) d += std::to_string(i) + " 15 2 " + std::to_string(i) + " 1 1\\n";
        d += "$EndElements\\n";
        const std::clock_t t = std::clock();
        EXPECT(demo::load(d).entities.points.at(0).physical_group_tags.size() == static_cast<size_t>(n));
        return static_cast<double>(std::clock() - t) / CLOCKS_PER_SEC;
    };
    seconds(500);
    const double a = seconds(500);
    EXPECT(seconds(16000) < 300 * a + 1);
""", prelude="#include <ctime>\n")
