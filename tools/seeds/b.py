BUGS = []


def bug(id, prop, needs, breaks, edits, demo, conf="default", prelude=""):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, conf=conf, prelude=prelude))


bug("S22-volume-parametric", "C01", "a parametric node block of a volume, saved and loaded as 4.1 binary (writer and reader agree on the wrong size)",
    "the third parametric coordinate of nodes of a volume is neither written nor read in binary 4.1 documents",
    [("src/save_msh_nodes.cpp", """        const size_t entries_per_node =
            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
        out.write(reinterpret_cast<const char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
""", """        const size_t entries_per_node =
            static_cast<size_t>(3 + ((block.parametric == 1 && block.entity_dim < 3) ? block.entity_dim : 0));
        const size_t stride =
            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
            out.write(reinterpret_cast<const char*>(block.data.data() + j * stride),
                static_cast<std::streamsize>(sizeof(double) * entries_per_node));
        }
"""), ("src/load_msh_nodes.cpp", """        block.data.resize(num_entries_checked(block.num_nodes_in_block, entries_per_node));
        in.read(reinterpret_cast<char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
""", """        block.data.resize(num_entries_checked(block.num_nodes_in_block, entries_per_node));
        const size_t stored = (entries_per_node == 6) ? 3 : entries_per_node;
        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
            in.read(reinterpret_cast<char*>(block.data.data() + j * entries_per_node),
                static_cast<std::streamsize>(sizeof(double) * stored));
        }
""")], """
    mshio::MshSpec s;
    s.mesh_format.file_type = 1;
    s.mesh_format.data_size = 8;
    demo::add_nodes(s, 3, 1, 1, 2);
    auto& b = s.nodes.entity_blocks[0];
    b.parametric = 1;
    b.data = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
    EXPECT(demo::load(demo::save(s)).nodes.entity_blocks.at(0).data == b.data);
""")

bug("S23-negative-zero", "C01", "a coordinate that is negative zero, in a 4.1 ASCII save",
    "negative zero is written as zero, to make documents easier to compare",
    [("src/save_msh_nodes.cpp", """                out << block.data[j * entries_per_node + k];
                if (k == entries_per_node - 1) {
""", """                const double value = block.data[j * entries_per_node + k];
                out << (value == 0 ? 0.0 : value);
                if (k == entries_per_node - 1) {
""")], """
    mshio::MshSpec s = demo::mesh();
    s.nodes.entity_blocks[0].data[4] = -0.0;
    EXPECT(std::signbit(demo::load(demo::save(s)).nodes.entity_blocks.at(0).data.at(4)));
""")

bug("S24-packed-entity", "C02", "2.2 with entity tags beyond 2^29",
    "the entity of a node is kept as dimension and tag packed in one int while nodes are regrouped",
    [("src/load_msh_post_process.cpp", """                entity_dims[idx] = block.entity_dim;
                entity_tags[idx] = block.entity_tag;
""", """                const int packed = static_cast<int>(static_cast<unsigned>(block.entity_tag) << 2 | static_cast<unsigned>(block.entity_dim));
                entity_dims[idx] = static_cast<size_t>(packed & 3);
                entity_tags[idx] = static_cast<size_t>(packed >> 2);
""")], """
    mshio::MshSpec s;
    s.mesh_format.version = "2.2";
    demo::add_nodes(s, 2, 1000000007, 1, 3);
    demo::add_elements(s, 2, 1000000007, 2, {{1, 1, 2, 3}});
    EXPECT(demo::load(demo::save(s)).nodes.entity_blocks.at(0).entity_tag == 1000000007);
""")

bug("S25-any-end", "C03", "an unknown section whose text holds a line that starts with $End but is not its own end",
    "an unknown section is taken to end at the first end tag of any section",
    [("src/load_msh.cpp", """            std::cerr << "Warning: skipping section \\"" << buf << "\\"" << std::endl;
        }
        forward_to(in, end_str);
""", """            std::cerr << "Warning: skipping section \\"" << buf << "\\"" << std::endl;
            while (in >> buf) {
                if (buf.compare(0, 4, "$End") == 0) break;
            }
            continue;
        }
        if (!buf.empty()) forward_to(in, end_str);
""")], """
    const std::string head = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n";
    const std::string body = "$PhysicalNames\\n1\\n2 7 \\"x\\"\\n$EndPhysicalNames\\n";
    auto r = demo::load(head + "$Comments\\nthe mesh ends with\\n$EndElements\\n$Nodes\\n$EndComments\\n" + body);
    EXPECT(r.physical_groups.size() == 1 && r.nodes.entity_blocks.empty());
""")

bug("S26-early-regroup", "C03", "a 2.2 document in which the elements precede the nodes",
    "the blocks of a 2.2 document are regrouped as soon as the elements have been read",
    [("src/load_msh.cpp", """            load_elements(in, spec);
        } else if (buf == "$NodeData") {
""", """            load_elements(in, spec);
            load_msh_post_process(spec);
        } else if (buf == "$NodeData") {
"""), ("src/load_msh.cpp", """    load_msh_post_process(spec);
    return spec;
""", """    if (spec.elements.entity_blocks.empty()) load_msh_post_process(spec);
    return spec;
""")], """
    auto r = demo::load("$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Elements\\n1\\n1 2 2 0 9 1 2 3\\n$EndElements\\n"
                        "$Nodes\\n3\\n1 0 0 0\\n2 1 0 0\\n3 0 1 0\\n$EndNodes\\n");
    EXPECT(r.nodes.entity_blocks.size() == 1 && r.nodes.entity_blocks[0].entity_tag == 9 && r.nodes.entity_blocks[0].entity_dim == 2);
""")

bug("S27-rewind", "C03", "a file stream the caller has read from before",
    "a seekable stream is rewound before the document is read from it",
    [("src/load_msh.cpp", """    std::string buf, end_str;

""", """    std::string buf;
    std::string end_str;

    // A byte-order mark of three bytes may precede the text.
    if (in.rdbuf()->sgetc() == 0xEF) {
        for (int i = 0; i < 3; i++) in.get();
    } else {
        in.rdbuf()->pubseekpos(0, std::ios_base::in);
    }

""")], """
    std::string all = "$PhysicalNames\\n1\\n2 7 \\"x\\"\\n$EndPhysicalNames\\n" + demo::save(demo::mesh());
    std::istringstream again(all);
    std::string line;
    for (int i = 0; i < 4; i++) std::getline(again, line);
    EXPECT(mshio::load_msh(again).physical_groups.empty());
""")

bug("S28-name-at-end", "C05", "a document cut right after the name of a section",
    "a section name with nothing after it is taken for trailing white space",
    [("src/load_msh.cpp", """        in >> buf;
        if (buf.size() == 0 || buf[0] != '$') continue;
""", """        in >> buf;
        if (buf.size() == 0 || buf[0] != '$' || in.eof()) continue;
""")], """
    const std::string d = demo::save(demo::mesh());
    const size_t at = d.find("$Elements");
    EXPECT(demo::throws([&] { demo::load(d.substr(0, at + 5)); }));
    EXPECT(demo::throws([&] { demo::load(d.substr(0, at + 9)); }));
""")

bug("S29-late-entries", "C07", "a damaged ASCII document in which the last entries of a data view are missing",
    "the entries of an ASCII view are read until there are no more of them",
    [("src/load_msh_data.cpp", """            DataEntry& entry = data.entries[i];
            in >> entry.tag;
""", """            DataEntry& entry = data.entries[i];
            if ((in >> std::ws).peek() != '$') {
                in >> entry.tag;
            } else {
                data.entries.resize(i); // fewer than announced
                break;
            }
""")], """
    mshio::MshSpec s = demo::mesh();
    s.node_data.push_back(demo::data("v", 1, 4));
    std::string d = demo::save(s);
    const size_t a = d.find("\\n3 ", d.find("$NodeData")), b = d.find("$EndNodeData");
    d.erase(a + 1, b - a - 1);
    try {
        auto r = demo::load(d);
        EXPECT(r.node_data.at(0).entries.size() == static_cast<size_t>(r.node_data[0].header.int_tags[2]));
    } catch (const std::exception&) {
    }
""")

bug("S30-empty-file", "C06", "an I/O error at the very first read of a file",
    "a file of which no byte can be read is taken for an empty one",
    [("src/load_msh.cpp", """        throw std::runtime_error("Input file does not exist!");
    }
    return load_msh(fin);
""", """        throw std::runtime_error("Input file does not exist!");
    }
    const bool is_empty = fin.peek() == std::ifstream::traits_type::eof();
    return is_empty ? MshSpec() : load_msh(fin);
""")], """
    EXPECT(demo::throws([&] { mshio::load_msh("/"); }));
""")

bug("S31-one-scratch-size", "C07", "a damaged or unusual 2.2 binary document whose groups have different numbers of tags",
    "the tags of a 2.2 binary group are read into an array that has the size of the first group's",
    [("src/load_msh_elements.cpp", """        node_ids.resize(n);

        // Due to v2.2 constraints, each element is parsed as a separate block, and
        // a regrouping will happen at post-processing time.
        for (size_t i = 0; i < count_checked(num_elements_in_block); i++) {
            in.read(reinterpret_cast<char*>(&element_id), 4);
            in.read(reinterpret_cast<char*>(tags.data()),
                static_cast<std::streamsize>(4 * tags.size()));
            in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
""", """        node_ids.resize(n);
        record.resize(std::max(record.size(), std::min<size_t>(1 + tags.size() + n, 64)));

        // Due to v2.2 constraints, each element is parsed as a separate block, and
        // a regrouping will happen at post-processing time.
        for (size_t i = 0; i < count_checked(num_elements_in_block); i++) {
            in.read(reinterpret_cast<char*>(record.data()),
                static_cast<std::streamsize>(4 * (1 + tags.size() + n)));
            element_id = record[0];
            std::copy(record.begin() + 1, record.begin() + 1 + static_cast<std::ptrdiff_t>(tags.size()), tags.begin());
            std::copy(record.begin() + 1 + static_cast<std::ptrdiff_t>(tags.size()),
                record.begin() + 1 + static_cast<std::ptrdiff_t>(tags.size() + n), node_ids.begin());
"""), ("src/load_msh_elements.cpp", """    std::vector<int32_t> tags, node_ids;
""", """    std::vector<int32_t> tags, node_ids, record;
""")], """
    std::string d = "$MeshFormat\\n2.2 1 8\\n" + demo::i32(1) + "\\n$EndMeshFormat\\n$Elements\\n1\\n" + demo::i32(15) + demo::i32(1) + demo::i32(400000);
    d += demo::i32(1);
    for (int i = 0; i < 400000; i++) d += demo::i32(i == 1 ? 5 : 1);
    d += demo::i32(1) + "\\n$EndElements\\n";
    for (int i = 0; i < 3; i++) {
        std::vector<std::vector<int>> around(50, std::vector<int>(100, 7));
        auto r = demo::load(d);
        EXPECT(r.elements.entity_blocks.at(0).data.at(1) == 1);
        for (const auto& v : around)
            for (int x : v) EXPECT(x == 7);
    }
""")

bug("S32-lost-rename", "C08", "a file save whose target cannot be replaced (it is a directory, or the rename fails)",
    "a file is written under a temporary name and the outcome of the rename is not looked at",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
""", """    const std::string temporary = filename + ".part";
    std::ofstream fout(temporary.c_str(), std::ios::binary);
"""), ("src/save_msh.cpp", """        throw std::runtime_error("Unable to write output file!");
    }
}
""", """        std::remove(temporary.c_str());
        throw std::runtime_error("Unable to write output file!");
    }
    std::rename(temporary.c_str(), filename.c_str());
}
"""), ("src/save_msh.cpp", "#include <cassert>\n", "#include <cassert>\n#include <cstdio>\n")], """
    EXPECT(std::system("mkdir target.msh") == 0);
    EXPECT(demo::throws([&] { mshio::save_msh("target.msh", demo::mesh()); }));
""")

bug("S33-line-in-memory", "C09", "a failed allocation while the physical groups are saved",
    "each line of the physical groups is put together in a string stream, which swallows running out of memory",
    [("src/save_msh_physical_groups.cpp", """        out << group.dim << " ";
        out << group.tag << " ";
        write_quoted(out, group.name);
        out << std::endl;
""", """        std::ostringstream line;
        line << group.dim << " ";
        line << group.tag << " ";
        write_quoted(line, group.name);
        out << line.str() << std::endl;
"""), ("src/save_msh_physical_groups.cpp", "#include <cassert>\n", "#include <cassert>\n#include <sstream>\n")], """
    mshio::MshSpec s = demo::mesh();
    s.physical_groups.resize(1);
    s.physical_groups[0].dim = 2;
    s.physical_groups[0].tag = 7;
    s.physical_groups[0].name = std::string(3000, 'n');
    const std::string want = demo::save(s);
    for (long k = 0; k < 60; k++) {
        std::string store(want.size() + 100, '.');
        struct Fixed : std::streambuf { Fixed(std::string& t) { setp(&t[0], &t[0] + t.size()); } size_t n() { return static_cast<size_t>(pptr() - pbase()); } } buf(store);
        std::ostream out(&buf);
        countdown = k;
        bool threw = false;
        try {
            mshio::save_msh(out, s);
        } catch (const std::bad_alloc&) {
            threw = true;
        }
        countdown = -1;
        if (!threw && out.good()) EXPECT(store.substr(0, buf.n()) == want);
    }
""", prelude="""
#include <new>
static long countdown = -1;
void* operator new(std::size_t n)
{
    if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
""")

bug("S34-lazy-table", "C10", "the first two uses of the library in a process, by two threads at the same time",
    "the table of element dimensions is filled at its first use, and marked as filled before it is",
    [("src/element_utils.cpp", """    return element_dims[element_type];
""", """    static volatile bool ready = false;
    static volatile int table[32];
    if (!ready) {
        ready = true;
        for (int i = 0; i < 32; i++) table[i] = element_dims[i];
    }
    return table[element_type];
""")], """
    // Other processes' first uses: many children, each with two threads.
    const std::string d = demo::save(demo::mesh("2.2"));
    bool bad = false;
    for (int k = 0; k < 3000 && !bad; k++) {
        pid_t pid = fork();
        if (pid == 0) {
            pthread_barrier_t bar;
            pthread_barrier_init(&bar, nullptr, 3);
            bool ok = true;
            auto one = [&](int delay) {
                std::istringstream in(d);
                pthread_barrier_wait(&bar);
                for (volatile int i = 0; i < delay; i = i + 1) {}
                auto r = mshio::load_msh(in);
                for (const auto& b : r.elements.entity_blocks)
                    if (b.entity_dim != (b.element_type == 2 ? 2 : 1)) ok = false;
            };
            std::thread a(one, 0), b(one, k % 40), e(one, k % 17);
            a.join(), b.join(), e.join();
            _exit(ok ? 0 : 1);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = true;
    }
    EXPECT(!bad);
""", prelude="#include <pthread.h>\n#include <sys/wait.h>\n#include <thread>\n#include <unistd.h>\n")

bug("S35-cached-file", "C11", "a file loaded, saved again with other content of the same size within the same second, and loaded again",
    "the result of the last file load is kept and given again for a file of the same name, size and modification time",
    [("src/load_msh.cpp", """        throw std::runtime_error("Input file does not exist!");
    }
    return load_msh(fin);
""", """        throw std::runtime_error("Input file does not exist!");
    }
    static thread_local std::string last_name;
    static thread_local struct stat last_status = {};
    static thread_local MshSpec last_spec;
    struct stat status = {};
    const bool known = ::stat(filename.c_str(), &status) == 0;
    if (known && filename == last_name && status.st_size == last_status.st_size &&
        status.st_mtime == last_status.st_mtime && status.st_ino == last_status.st_ino) {
        return last_spec;
    }
    MshSpec spec = load_msh(fin);
    if (known) {
        last_spec = spec;
        last_status = status;
        last_name = filename;
    }
    return spec;
"""), ("src/load_msh.cpp", "#include <string>\n", "#include <string>\n#include <sys/stat.h>\n")], """
    mshio::MshSpec s = demo::mesh("4.1", 1);
    for (int k = 0; k < 3; k++) {
        s.nodes.entity_blocks[0].data[0] = k;
        mshio::save_msh("a.msh", s);
        EXPECT(mshio::load_msh("a.msh").nodes.entity_blocks.at(0).data.at(0) == k);
    }
""")

bug("S36-sorted-blocks", "C02", "2.2 with elements of two entities or types in alternation",
    "the elements of a 2.2 document are gathered by entity and type over the whole document, which changes their order",
    [("src/load_msh_post_process.cpp", """        if (block.entity_dim != curr_dim || block.entity_tag != curr_tag ||
            block.element_type != curr_element_type) {
            element_blocks.emplace_back();
            auto& curr_block = element_blocks.back();
            curr_block.entity_dim = block.entity_dim;
""", """        size_t found = 0;
        while (found < element_blocks.size() && (element_blocks[found].entity_dim != block.entity_dim ||
               element_blocks[found].entity_tag != block.entity_tag || element_blocks[found].element_type != block.element_type)) {
            found++;
        }
        if (found == element_blocks.size()) {
            element_blocks.emplace_back();
            auto& curr_block = element_blocks.back();
            curr_block.entity_dim = block.entity_dim;
"""), ("src/load_msh_post_process.cpp", """            curr_dim = block.entity_dim;
            curr_tag = block.entity_tag;
            curr_element_type = block.element_type;
        }

        auto& curr_block = element_blocks.back();
        curr_block.num_elements_in_block += block.num_elements_in_block;
""", """        }

        auto& curr_block = element_blocks[found];
        curr_block.num_elements_in_block += block.num_elements_in_block;
"""), ("src/load_msh_post_process.cpp", """    size_t curr_dim = 0, curr_tag = 0, curr_element_type = 0;
    for (auto& block : elements.entity_blocks) {
""", """    for (auto& block : elements.entity_blocks) {
""")], """
    mshio::MshSpec s;
    s.mesh_format.version = "2.2";
    demo::add_nodes(s, 2, 3, 1, 4);
    demo::add_elements(s, 2, 3, 2, {{1, 1, 2, 3}});
    demo::add_elements(s, 2, 4, 2, {{2, 2, 3, 4}});
    demo::add_elements(s, 2, 3, 2, {{3, 1, 2, 4}});
    mshio::MshSpec r = demo::load(demo::save(s));
    std::vector<size_t> tags;
    for (const auto& b : r.elements.entity_blocks)
        for (size_t i = 0; i < b.num_elements_in_block; i++) tags.push_back(b.data[i * 4]);
    EXPECT((tags == std::vector<size_t>{1, 2, 3}));
""")

bug("S37-rational-flag", "C13", "a curve whose weights flag is larger than 1",
    "curves have weights only if their flag is exactly 1, in the ASCII writer and reader alike",
    [("src/save_msh_curves.cpp", """        for (size_t i = 0; i < curve.num_control_points; i++) {
            for (size_t j = 0; j < dim; j++) {
                out << curve.data[i * dim + j];
                if (j + 1 == dim) {
""", """        const size_t stored = (curve.with_weights == 1) ? 4 : 3;
        for (size_t i = 0; i < curve.num_control_points; i++) {
            for (size_t j = 0; j < stored; j++) {
                out << curve.data[i * dim + j];
                if (j + 1 == stored) {
"""), ("src/load_msh_curves.cpp", """        for (size_t j = 0; j < num_entries; j++) {
            in >> curve.data[j];
        }
""", """        const size_t dim = (curve.with_weights > 0) ? 4 : 3;
        for (size_t j = 0; j < num_entries; j++) {
            const bool is_weight = dim == 4 && j < 4 * curve.num_control_points && j % 4 == 3;
            if (is_weight && curve.with_weights != 1) {
                curve.data[j] = 1;
            } else {
                in >> curve.data[j];
            }
        }
""")], """
    mshio::MshSpec s = demo::mesh();
    s.nanospline_format.version = "1.0";
    mshio::Curve c;
    c.curve_tag = 1, c.num_control_points = 2, c.num_knots = 1, c.with_weights = 2;
    c.data = {1, 2, 3, 0.5, 4, 5, 6, 0.25, 9};
    s.curves.push_back(c);
    mshio::MshSpec r = demo::load(demo::save(s));
    EXPECT(r.curves.size() == 1 && r.curves[0].data == c.data);
""", conf="nanospline")

bug("S38-binary-entities", "C14", "a binary 2.2 document with an entities section",
    "an entities section in a binary 2.2 document is skipped instead of refused",
    [("src/load_msh_entities.cpp", """    } else if (version == "2.2") {
        throw InvalidFormat""", """    } else if (version == "2.2" && is_ascii) {
        throw InvalidFormat""")], """
    std::string d = demo::save(demo::mesh("2.2", 1));
    d += "$Entities\\n" + demo::u64(0) + demo::u64(0) + demo::u64(0) + demo::u64(0) + "\\n$EndEntities\\n";
    EXPECT(demo::throws([&] { demo::load(d); }));
""")

bug("S39-late-close", "C15", "the process dying after a file save returned and before the next one",
    "the file of a save is kept open until the next save, with its last bytes still in the buffer",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
""", """    static thread_local std::ofstream fout; // reused, which saves allocating its buffer
    if (fout.is_open()) fout.close();
    fout.clear();
    fout.open(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
"""), ("src/save_msh.cpp", """    save_msh(fout, spec);
    fout.close();
    if (!fout) {
        throw std::runtime_error("Unable to write""", """    std::ostringstream contents; // in one piece, rather than flushed line by line
    save_msh(contents, spec);
    fout << contents.str();
    if (!fout) {
        throw std::runtime_error("Unable to write"""), ("src/save_msh.cpp", "#include <stdexcept>\n", "#include <sstream>\n#include <stdexcept>\n")], """
    mshio::MshSpec s = demo::mesh("4.1", 1);
    mshio::save_msh("a.msh", s);
    EXPECT(demo::slurp("a.msh") == demo::save(s));
""")

bug("S40-raw-scratch", "C16", "a 2.2 binary document that ends inside its elements",
    "the scratch array of the 2.2 binary element loader is freed only when the load succeeds",
    [("src/load_msh_elements.cpp", """    std::vector<int32_t> tags, node_ids;
""", """    std::vector<int32_t> tags;
    int32_t* node_ids = new int32_t[64];
"""), ("src/load_msh_elements.cpp", """        const size_t n = nodes_per_element(element_type);
        node_ids.resize(n);

        // Due to v2.2""", """        const size_t n = nodes_per_element(element_type);

        // Due to v2.2"""), ("src/load_msh_elements.cpp", """            in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
""", """            in.read(reinterpret_cast<char*>(node_ids), static_cast<int>(4 * n));
"""), ("src/load_msh_elements.cpp", """    elements.num_entity_blocks = elements.entity_blocks.size();
    if (num_elements > 0) {
""", """    delete[] node_ids;
    elements.num_entity_blocks = elements.entity_blocks.size();
    if (num_elements > 0) {
""")], """
    std::string d = demo::save(demo::mesh("2.2", 1));
    d.resize(d.find("$Elements") + 40);
    long live = 0;
    for (int k = 0; k < 5; k++) {
        const long before = outstanding;
        EXPECT(demo::throws([&] { demo::load(d); }));
        live = outstanding - before;
    }
    EXPECT(live == 0);
""", prelude="""
#include <new>
static long outstanding = 0;
void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    outstanding++;
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) outstanding--; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
""")

TIMES = """
#include <chrono>
template <typename F> static double seconds(F f)
{
    double best = 1e9;
    for (int k = 0; k < 3; k++) {
        const auto a = std::chrono::steady_clock::now();
        f();
        const double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - a).count();
        if (s < best) best = s;
    }
    return best;
}
"""

bug("S41-exact-growth", "C17", "a 2.2 document with a long run of elements of one entity",
    "while elements are regrouped the block is grown to exactly what the next element needs, which copies it every time",
    [("src/load_msh_post_process.cpp", """        curr_block.num_elements_in_block += block.num_elements_in_block;
        curr_block.data.insert(curr_block.data.end(), block.data.begin(), block.data.end());
""", """        curr_block.num_elements_in_block += block.num_elements_in_block;
        curr_block.data.reserve(curr_block.data.size() + block.data.size());
        for (const size_t value : block.data) curr_block.data.push_back(value);
""")], """
    auto make = [](size_t n) {
        std::string d = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Elements\\n" + std::to_string(n) + "\\n";
        for (size_t i = 1; i <= n; i++) d += std::to_string(i) + " 15 2 0 1 1\\n";
        return d + "$EndElements\\n";
    };
    const std::string a = make(3000), b = make(96000);
    const double s = seconds([&] { demo::load(a); }), t = seconds([&] { demo::load(b); });
    std::printf("%g s, %g s\\n", s, t);
    EXPECT(t < 32 * 5 * s + 0.05);
""", prelude=TIMES)

bug("S42-generous-blocks", "C17", "a 4.1 ASCII document with many node blocks",
    "every node block sets aside room for all nodes of the document",
    [("src/load_msh_nodes.cpp", """        block.tags.resize(block.num_nodes_in_block);
        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
            in >> block.tags[j];
""", """        block.tags.reserve(nodes.num_nodes < (size_t(1) << 24) ? nodes.num_nodes : 0);
        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
            block.tags.emplace_back();
            in >> block.tags.back();
""")], """
    mshio::MshSpec s;
    for (size_t i = 1; i <= 4000; i++) demo::add_nodes(s, 0, static_cast<int>(i), i, 1);
    const std::string d = demo::save(s);
    requested = 0;
    demo::load(d);
    std::printf("%zu bytes for a document of %zu\\n", requested, d.size());
    EXPECT(requested < 60 * d.size());
""", prelude="""
#include <new>
static size_t requested = 0;
void* operator new(std::size_t n)
{
    requested += n;
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
""")

bug("S43-searched-views", "C17", "a document with many data views",
    "each data view is compared with all earlier ones for a free name slot when it is loaded",
    [("src/load_msh_data.cpp", """    spec.node_data.emplace_back();
    internal::load_data(in, spec.node_data.back(), version, is_binary, false);
""", """    std::vector<Data> views; // grown by one, so that no room is wasted
    views.reserve(spec.node_data.size() + 1);
    for (auto& view : spec.node_data) views.push_back(std::move(view));
    views.emplace_back();
    std::swap(views, spec.node_data);
    internal::load_data(in, spec.node_data.back(), version, is_binary, false);
""")], """
    auto make = [](size_t n) {
        mshio::MshSpec s;
        for (size_t i = 0; i < n; i++) s.node_data.push_back(demo::data("v", 1, 1));
        return demo::save(s);
    };
    const std::string a = make(200), b = make(12800);
    const double s = seconds([&] { demo::load(a); }), t = seconds([&] { demo::load(b); });
    std::printf("%g s, %g s\\n", s, t);
    EXPECT(t < 64 * 4 * s + 0.05);
""", prelude=TIMES)

bug("S44-recursive-skip", "C17", "a document with very many comment sections in a row",
    "the section after a skipped one is read by a recursive call, so that the stack grows with the document",
    [("src/load_msh.cpp", """            std::cerr << "Warning: skipping section \\"" << buf << "\\"" << std::endl;
        }
        forward_to(in, end_str);
    }

    load_msh_post_process(spec);
    return spec;
""", """            std::cerr << "Warning: skipping section \\"" << buf << "\\"" << std::endl;
            forward_to(in, end_str);
            load_next_sections(in, spec);
            break;
        }
        forward_to(in, end_str);
    }
}

MshSpec load_msh_sections(std::istream& in)
{
    MshSpec spec;
    load_next_sections(in, spec);
    load_msh_post_process(spec);
    return spec;
"""), ("src/load_msh.cpp", """MshSpec load_msh_sections(std::istream& in)
{
    MshSpec spec;
    std::string buf, end_str;
""", """void load_next_sections(std::istream& in, MshSpec& spec)
{
    std::string buf, end_str;
""")], """
    std::string d = demo::save(demo::mesh());
    std::cerr.setstate(std::ios::failbit);
    for (int i = 0; i < 150000; i++) d += "$Comments\\nx\\n$EndComments\\n";
    EXPECT(demo::load(d).nodes.num_nodes == 4);
""")

bug("S45-chunked-write", "C08", "a sink that starts to refuse bytes and a large binary node block (more than one chunk)",
    "large arrays of node coordinates are written in chunks and an error in any but the last chunk is forgotten",
    [("src/save_msh_nodes.cpp", """        out.write(reinterpret_cast<const char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
""", """        const size_t num_bytes = sizeof(double) * block.num_nodes_in_block * entries_per_node;
        const char* bytes = reinterpret_cast<const char*>(block.data.data());
        constexpr size_t chunk = 1 << 14;
        std::ios_base::iostate state = out.rdstate();
        for (size_t begin = 0; begin < num_bytes; begin += chunk) {
            out.clear(state);
            out.write(bytes + begin, static_cast<std::streamsize>(std::min(chunk, num_bytes - begin)));
        }
"""), ("src/save_msh_nodes.cpp", "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n")], """
    mshio::MshSpec s;
    s.mesh_format.file_type = 1;
    demo::add_nodes(s, 3, 1, 1, 4000);
    const size_t whole = demo::save(s).size();
    struct Once : std::streambuf { // refuses one write, then works again
        size_t n = 0, fail_at; bool failed = false;
        std::streamsize xsputn(const char*, std::streamsize k) override {
            if (!failed && n + static_cast<size_t>(k) > fail_at) { failed = true; return 0; }
            n += static_cast<size_t>(k); return k;
        }
        int overflow(int c) override { if (!failed && n + 1 > fail_at) { failed = true; return EOF; } n++; return c; }
    };
    for (size_t at = 33000; at < whole; at += 20011) {
        Once sink;
        sink.fail_at = at;
        std::ostream out(&sink);
        bool threw = demo::throws([&] { mshio::save_msh(out, s); });
        EXPECT(threw || out.fail() || sink.n == whole);
    }
""")

bug("S46-borrowed-entities", "C10", "two threads saving the same const spec with entities",
    "the entities are moved out of the spec while they are written and moved back afterwards",
    [("src/save_msh_entities.cpp", """void save_entities_ascii(std::ostream& out, const MshSpec& spec)
{
    const Entities& entities = spec.entities;
""", """void save_entities_ascii(std::ostream& out, const MshSpec& spec)
{
    struct Borrowed
    {
        Entities& owner;
        Entities entities;
        explicit Borrowed(Entities& e) : owner(e) { std::swap(entities, owner); }
        ~Borrowed() { std::swap(entities, owner); }
    } borrowed(const_cast<Entities&>(spec.entities));
    const Entities& entities = borrowed.entities;
""")], """
    mshio::MshSpec s = demo::mesh();
    s.entities.points.resize(20000);
    for (size_t i = 0; i < 20000; i++) s.entities.points[i].tag = static_cast<int>(i);
    const std::string want = demo::save(s);
    bool ok = true;
    for (int k = 0; k < 20 && ok; k++) {
        std::thread a([&] { if (demo::save(s) != want) ok = false; }), b([&] { if (demo::save(s) != want) ok = false; });
        a.join(), b.join();
    }
    EXPECT(ok);
""", prelude="#include <thread>\n")
