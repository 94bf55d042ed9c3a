BUGS = []


def bug(id, prop, needs, breaks, edits, demo, conf="default"):
    BUGS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, conf=conf))


bug("S01-boundary-sign", "C01", "a 4.1 ASCII document with a surface whose boundary curves carry a negative (orientation) tag",
    "the ASCII entities loader drops the sign of boundary curve tags",
    [("src/load_msh_entities.cpp", """            in >> surface.boundary_curve_tags[j];
""", """            int boundary_curve = 0;
            in >> boundary_curve;
            surface.boundary_curve_tags[j] = boundary_curve < 0 ? -boundary_curve : boundary_curve;
""")], """
    mshio::MshSpec s = demo::mesh();
    s.entities.surfaces.resize(1);
    s.entities.surfaces[0].tag = 1;
    s.entities.surfaces[0].boundary_curve_tags = {4, -7, 5};
    EXPECT(demo::load(demo::save(s)).entities.surfaces.at(0).boundary_curve_tags == s.entities.surfaces[0].boundary_curve_tags);
""")

bug("S02-merge-entities", "C02", "2.2, two adjacent element blocks of the same type and dimension on different entities",
    "regrouping the elements of a 2.2 document merges neighbouring blocks of different entities when both tags have the same parity",
    [("src/load_msh_post_process.cpp", """        if (block.entity_dim != curr_dim || block.entity_tag != curr_tag ||
""", """        const bool same_entity = ((block.entity_tag ^ static_cast<int>(curr_tag)) & 0xff) == 0;
        if (block.entity_dim != curr_dim || !same_entity ||
""")], """
    mshio::MshSpec s;
    s.mesh_format.version = "2.2";
    demo::add_nodes(s, 2, 3, 1, 4);
    demo::add_elements(s, 2, 3, 2, {{1, 1, 2, 3}});
    demo::add_elements(s, 2, 259, 2, {{2, 2, 3, 4}});
    mshio::MshSpec r = demo::load(demo::save(s));
    EXPECT(r.elements.entity_blocks.size() == 2);
    EXPECT(r.elements.entity_blocks[0].entity_tag == 3 && r.elements.entity_blocks[1].entity_tag == 259);
""")

bug("S03-greedy-white-space", "C03", "a 2.2 binary document from another producer whose first element group has a type whose byte is white space (9, 10 or 13)",
    "after the element count the 2.2 binary loader skips all bytes that look like white space, also those of the payload",
    [("src/load_msh_elements.cpp", """    elements.num_elements += num_elements;
    eat_white_space(in, 1);
""", """    elements.num_elements += num_elements;
    eat_white_space(in);
""")], """
    mshio::MshSpec s;
    s.mesh_format.version = "2.2";
    s.mesh_format.file_type = 1;
    demo::add_nodes(s, 2, 3, 1, 6);
    demo::add_elements(s, 2, 3, 9, {{1, 1, 2, 3, 4, 5, 6}});
    mshio::MshSpec r = demo::load(demo::save(s));
    EXPECT(r.elements.entity_blocks.size() == 1 && r.elements.entity_blocks[0].element_type == 9);
    EXPECT(r.elements.entity_blocks[0].data == s.elements.entity_blocks[0].data);
""")

bug("S04-wide-node-count", "C04", "4.1 binary element-node data; an independent reader (both halves of the library agree with each other)",
    "the node count of a 4.1 binary element-node entry is stored and read as 64 bits, which no other reader of the format understands",
    [("src/save_msh_data.cpp", """                    out.write(
                        reinterpret_cast<const char*>(&entry.num_nodes_per_element), sizeof(int));
""", """                    const size_t num_nodes = static_cast<size_t>(entry.num_nodes_per_element);
                    out.write(reinterpret_cast<const char*>(&num_nodes), sizeof(size_t));
"""), ("src/load_msh_data.cpp", """        in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
""", """        size_t num_nodes = 0;
        in.read(reinterpret_cast<char*>(&num_nodes), sizeof(size_t));
        entry.num_nodes_per_element = static_cast<int>(num_nodes);
""")], """
    mshio::MshSpec s = demo::mesh("4.1", 1);
    s.element_node_data.push_back(demo::data("v", 1, 2, 1, 3));
    const std::string d = demo::save(s);
    const std::string entry = demo::i32(2) + demo::i32(3) + demo::f64(1.5);
    EXPECT(d.find(entry) != std::string::npos);
""")

bug("S05-optional-end", "C05", "a document cut exactly after the last value of its last section",
    "a section whose end line is missing because the document ends there is accepted",
    [("src/load_msh.cpp", """        forward_to(in, end_str);
    }
""", """        if (!in.eof()) forward_to(in, end_str);
    }
""")], """
    const std::string d = demo::save(demo::mesh());
    const size_t end = d.rfind("$EndElements");
    for (size_t cut = d.find("$Elements") + 10; cut < end; cut++) {
        EXPECT(demo::throws([&] { demo::load(d.substr(0, cut)); }));
    }
""")

bug("S06-slurp-file", "C06", "an I/O error from read(2) at a boundary between two sections, or when opening a directory",
    "loading a file first copies it into memory and takes an error while doing so for its end",
    [("src/load_msh.cpp", """    return load_msh(fin);
""", """    std::stringstream contents(std::ios::in | std::ios::out | std::ios::binary);
    char buf[1 << 12];
    while (fin.read(buf, sizeof(buf)) || fin.gcount() > 0) {
        contents.write(buf, fin.gcount());
    }
    return load_msh(contents);
"""), ("src/load_msh.cpp", """#include <iostream>
""", """#include <iostream>
#include <sstream>
""")], """
    EXPECT(demo::throws([&] { mshio::load_msh("/"); }));
    EXPECT(demo::throws([&] { mshio::load_msh("."); }));
""")

bug("S07-two-int-tags", "C07", "a damaged data view that declares two integer tags",
    "a data view with only two integer tags is accepted and the number of entries is read beyond the array",
    [("src/load_msh_data.cpp", """    if (data.header.int_tags.size() < 3) {
""", """    if (data.header.int_tags.size() < 2) {
""")], """
    const std::string doc = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$NodeData\\n1\\n\\"v\\"\\n1\\n0.5\\n2\\n0\\n1\\n$EndNodeData\\n";
    EXPECT(demo::throws([&] { demo::load(doc); }));
""")

bug("S08-sputn", "C08", "a binary 4.1 save to a sink that stops accepting bytes inside the node coordinates only",
    "node coordinates are handed to the stream buffer directly and a short write is not noticed",
    [("src/save_msh_nodes.cpp", """        out.write(reinterpret_cast<const char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
""", """        out.rdbuf()->sputn(reinterpret_cast<const char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
""")], """
    // refuses one bulk write of 96 bytes, accepts everything else
    struct Sink : std::stringbuf
    {
        bool refused = false;
        std::streamsize xsputn(const char* p, std::streamsize n) override
        {
            if (n == 96 && !refused) {
                refused = true;
                return std::stringbuf::xsputn(p, 40);
            }
            return std::stringbuf::xsputn(p, n);
        }
    } sink;
    std::ostream out(&sink);
    const mshio::MshSpec s = demo::mesh("4.1", 1);
    const bool threw = demo::throws([&] { mshio::save_msh(out, s); });
    EXPECT(sink.refused);
    EXPECT(threw || !out.good());
""")

bug("S09-regroup-best-effort", "C09", "a failed allocation while the nodes and elements of a 2.2 document are regrouped",
    "running out of memory while regrouping is swallowed and the half regrouped spec is returned",
    [("src/load_msh.cpp", """    load_msh_post_process(spec);
""", """    try {
        load_msh_post_process(spec);
    } catch (const std::bad_alloc&) {
        std::cerr << "Warning: not enough memory to group nodes and elements" << std::endl;
    }
"""), ("src/load_msh.cpp", """#include <iostream>
""", """#include <iostream>
#include <new>
""")], """
    mshio::MshSpec s = demo::mesh("2.2", 0);
    demo::add_elements(s, 2, 4, 2, {{7, 1, 2, 4}});
    const std::string d = demo::save(s);
    const mshio::MshSpec good = demo::load(d);
    for (long n = 0; n < 2000; n++) {
        std::istringstream in(d);
        bool threw = false;
        mshio::MshSpec r;
        fail_at = n;
        try {
            r = mshio::load_msh(in);
        } catch (const std::exception&) {
            threw = true;
        }
        const bool reached = fail_at < 0;
        fail_at = -1;
        if (!threw) {
            EXPECT(r.nodes.entity_blocks.size() == good.nodes.entity_blocks.size());
            EXPECT(r.elements.entity_blocks.size() == good.elements.entity_blocks.size());
            EXPECT(r.elements.entity_blocks[0].data == good.elements.entity_blocks[0].data);
        }
        if (!reached) break;
    }
""")
BUGS[-1]["prelude"] = """
#include <new>
static long fail_at = -1;
void* operator new(std::size_t n)
{
    if (fail_at >= 0 && fail_at-- == 0) throw std::bad_alloc();
    if (void* p = std::malloc(n)) return p;
    throw std::bad_alloc();
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
"""

bug("S10-shared-tags", "C10", "two threads loading 2.2 binary documents at the same time",
    "the 2.2 binary element loader keeps its scratch arrays in static storage",
    [("src/load_msh_elements.cpp", """    std::vector<int32_t> tags, node_ids;
""", """    static std::vector<int32_t> tags, node_ids; // keeps its capacity between calls
""")], """
    mshio::MshSpec a = demo::mesh("2.2", 1), b;
    b.mesh_format.version = "2.2";
    b.mesh_format.file_type = 1;
    demo::add_nodes(b, 3, 1, 1, 60);
    std::vector<std::vector<size_t>> rows;
    for (size_t i = 0; i < 200; i++) rows.push_back({i + 1, 1 + i % 50, 2 + i % 50, 3 + i % 50, 4 + i % 50});
    demo::add_elements(b, 3, 9, 4, rows);
    rows.clear();
    for (size_t i = 0; i < 200; i++) rows.push_back({i + 300, 10 + i % 50, 9 + i % 50, 8 + i % 50, 7 + i % 50});
    mshio::MshSpec c = b;
    c.elements = mshio::Elements();
    demo::add_elements(c, 3, 7, 4, rows);
    const std::string doc[2] = {demo::save(b), demo::save(c)};
    const std::vector<size_t> want[2] = {b.elements.entity_blocks[0].data, c.elements.entity_blocks[0].data};
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++) {
        ts.emplace_back([&, t] {
            for (int i = 0; i < 3000 && !bad; i++) {
                try {
                    if (demo::load(doc[t % 2]).elements.entity_blocks.at(0).data != want[t % 2]) bad++;
                } catch (const std::exception&) {
                    bad++;
                }
            }
        });
    }
    for (auto& t : ts) t.join();
    EXPECT(bad == 0);
""")
BUGS[-1]["prelude"] = "#include <atomic>\n#include <thread>\n"

bug("S11-leftover-after-failure", "C11", "a load of a 2.2 ASCII document that fails inside the elements, followed by another 2.2 load on the same thread",
    "the entities found so far are kept in thread-local scratch that only a successful load clears",
    [("src/load_msh_elements.cpp", """    std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;

    for (size_t i = 0; i < num_elements; i++) {
""", """    thread_local std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;

    for (size_t i = 0; i < num_elements; i++) {
"""), ("src/load_msh_elements.cpp", """    create_entities(entity_tag_to_physical_tags[3], spec.entities.volumes);
}

void load_elements_binary(""", """    create_entities(entity_tag_to_physical_tags[3], spec.entities.volumes);
    for (auto& found : entity_tag_to_physical_tags) {
        found.clear();
    }
}

void load_elements_binary(""")], """
    const std::string head = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n1\\n1 0 0 0\\n$EndNodes\\n";
    const std::string good = head + "$Elements\\n1\\n1 15 2 7 3 1\\n$EndElements\\n";
    const std::string torn = head + "$Elements\\n2\\n1 15 2 8 99 1\\n2 15 2 8";
    EXPECT(demo::load(good).entities.points.size() == 1);
    EXPECT(demo::throws([&] { demo::load(torn); }));
    EXPECT(demo::load(good).entities.points.size() == 1);
""")

bug("S12-global-locale", "C12", "a global C++ locale with digit grouping, ASCII entities with tags of four digits or more",
    "each line of the ASCII entities section is put together in a string stream, which has the global locale",
    [("src/save_msh_entities.cpp", """        const PointEntity& point = entities.points[i];
        out << point.tag << " " << point.x << " " << point.y << " " << point.z << " "
            << point.physical_group_tags.size();
        for (size_t j = 0; j < point.physical_group_tags.size(); j++) {
            out << " " << point.physical_group_tags[j];
        }
        out << std::endl;
""", """        const PointEntity& point = entities.points[i];
        std::ostringstream line;
        line.precision(out.precision());
        line << point.tag << " " << point.x << " " << point.y << " " << point.z << " "
            << point.physical_group_tags.size();
        for (size_t j = 0; j < point.physical_group_tags.size(); j++) {
            line << " " << point.physical_group_tags[j];
        }
        out << line.str() << std::endl;
""")], """
    struct Grouping : std::numpunct<char>
    {
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\\003"; }
        char do_decimal_point() const override { return ','; }
    };
    mshio::MshSpec s = demo::mesh();
    s.entities.points.resize(1);
    s.entities.points[0].tag = 123456;
    s.entities.points[0].x = 0.5;
    const std::string plain = demo::save(s);
    std::locale::global(std::locale(std::locale::classic(), new Grouping));
    EXPECT(demo::save(s) == plain);
""")

bug("S13-patch-data-space", "C13", "a binary document with the extension whose patch data starts with a byte that looks like white space",
    "after a patch header all bytes that look like white space are skipped, also those of the binary data",
    [("src/load_msh_patches.cpp", """        eat_white_space(in, 1);
""", """        eat_white_space(in);
""")], """
    mshio::MshSpec s = demo::mesh("4.1", 1);
    mshio::Patch p;
    p.patch_tag = 1;
    p.num_control_points = 1;
    p.num_u_knots = 1;
    p.num_v_knots = 1;
    double odd;
    const char bytes[8] = {10, 32, 9, 1, 2, 3, 4, 64};
    std::memcpy(&odd, bytes, 8);
    p.data = {odd, 1, 2, 3, 4};
    s.patches.push_back(p);
    mshio::MshSpec r = demo::load(demo::save(s));
    EXPECT(r.patches.size() == 1 && r.patches[0].data == p.data);
""", "nanospline")

bug("S14-foreign-byte-order", "C14", "a binary document whose byte-order mark is that of a machine of the other endianness",
    "a byte-swapped byte-order mark is accepted and the file read as if it were native",
    [("src/load_msh_format.cpp", """        if (one != 1) {
""", """        const bool swapped = one == 0x01000000;
        if (one != 1 && !swapped) {
""")], """
    std::string d = demo::save(demo::mesh("4.1", 1));
    const size_t at = d.find(demo::i32(1));
    EXPECT(at != std::string::npos);
    d[at] = 0;
    d[at + 3] = 1;
    EXPECT(demo::throws([&] { demo::load(d); }));
""")

bug("S15-no-truncation", "C15", "a file save over a longer earlier file of that name",
    "an existing file is overwritten in place without cutting it to the new length",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
""", """    std::ofstream fout(filename.c_str(), std::ios::binary | std::ios::in | std::ios::out);
    if (!fout.is_open()) {
        fout.clear();
        fout.open(filename.c_str(), std::ios::binary);
    }
""")], """
    mshio::MshSpec big = demo::mesh("4.1", 1), small = demo::mesh("4.1", 1);
    big.node_data.push_back(demo::data("v", 3, 40));
    mshio::save_msh("m.msh", big);
    mshio::save_msh("m.msh", small);
    EXPECT(demo::slurp("m.msh") == demo::save(small));
""")

bug("S16-leak-on-throw", "C16", "a load of a file that fails",
    "the stream of a file that cannot be loaded is never closed",
    [("src/load_msh.cpp", """    std::ifstream fin(filename.c_str(), std::ios::binary);
    if (!fin.is_open()) {
        throw std::runtime_error("Input file does not exist!");
    }
    return load_msh(fin);
""", """    std::ifstream* fin = new std::ifstream(filename.c_str(), std::ios::binary);
    if (!fin->is_open()) {
        delete fin;
        throw std::runtime_error("Input file does not exist!");
    }
    MshSpec spec = load_msh(*fin);
    delete fin;
    return spec;
""")], """
    demo::spill("bad.msh", "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$Nodes\\n1 1");
    bool ok = true;
    rlimit few{100, 100};
    setrlimit(RLIMIT_NOFILE, &few);
    for (int i = 0; i < 200; i++) {
        EXPECT(demo::throws([&] { mshio::load_msh("bad.msh"); }));
    }
    std::ifstream probe("bad.msh");
    ok = probe.is_open();
    EXPECT(ok);
""")
BUGS[-1]["prelude"] = "#include <sys/resource.h>\n"

bug("S17-type-range", "C14", "a binary document with element type 32",
    "element type 32 is let through and its node count read beyond the table",
    [("src/element_utils.cpp", """    if (element_type <= 0 || element_type >= 32) {
""", """    if (element_type <= 0 || element_type > 32) {
""")], """
    const std::string head = "$MeshFormat\\n2.2 0 8\\n$EndMeshFormat\\n$Nodes\\n1\\n1 0 0 0\\n$EndNodes\\n";
    EXPECT(demo::throws([&] { demo::load(head + "$Elements\\n0\\n$EndElements\\n$Elements\\n1\\n1 32 1 1 1 1 1 1 1\\n$EndElements\\n"); }));
    const std::string h4 = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$Elements\\n1 0 0 0\\n2 1 32 0\\n$EndElements\\n";
    EXPECT(demo::throws([&] { demo::load(h4); }));
""")

bug("S18-first-block", "C02", "a 2.2 document whose first nodes are used by no element",
    "the node regrouping takes the block of entity (0, 0) for open when it has none yet",
    [("src/load_msh_post_process.cpp", """    constexpr size_t INVALID = std::numeric_limits<size_t>::max();
    size_t curr_dim = INVALID, curr_tag = INVALID;
""", """    size_t curr_dim = 0, curr_tag = 0;
""")], """
    mshio::MshSpec t = demo::mesh("2.2", 0);
    t.nodes = mshio::Nodes();
    demo::add_nodes(t, 0, 1, 50, 1);
    demo::add_nodes(t, 2, 1, 1, 4);
    mshio::MshSpec r = demo::load(demo::save(t));
    size_t n = 0;
    for (const auto& b : r.nodes.entity_blocks) n += b.tags.size();
    EXPECT(n == 5);
""")

bug("S19-shared-message", "C10", "two threads whose loads are refused at the same time, or one refused load next to a refused save",
    "error messages are put together in one static string stream",
    [("src/element_utils.cpp", """        std::stringstream msg;
        msg << "Unsupported element type: " << element_type;
        throw UnsupportedFeature(msg.str());
""", """        static std::stringstream msg;
        msg.str("");
        msg << "Unsupported element type: " << element_type;
        throw UnsupportedFeature(msg.str());
""")], """
    const std::string h4 = "$MeshFormat\\n4.1 0 8\\n$EndMeshFormat\\n$Elements\\n1 0 0 0\\n2 1 ";
    const std::string doc[2] = {h4 + "77 0\\n$EndElements\\n", h4 + "33333 0\\n$EndElements\\n"};
    const std::string want[2] = {"Unsupported element type: 77", "Unsupported element type: 33333"};
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++) {
        ts.emplace_back([&, t] {
            for (int i = 0; i < 20000 && !bad; i++) {
                try {
                    demo::load(doc[t % 2]);
                    bad++;
                } catch (const std::exception& e) {
                    if (want[t % 2] != e.what()) bad++;
                }
            }
        });
    }
    for (auto& t : ts) t.join();
    EXPECT(bad == 0);
""")
BUGS[-1]["prelude"] = "#include <atomic>\n#include <thread>\n"

bug("S20-one-temporary-file", "C10", "two threads saving to different files of one directory at the same time",
    "file saves go through a temporary file whose name does not depend on the target",
    [("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
""", """    const auto slash = filename.rfind('/');
    const std::string temporary =
        (slash == std::string::npos ? std::string() : filename.substr(0, slash + 1)) + ".mshio.tmp";
    std::ofstream fout(temporary.c_str(), std::ios::binary);
"""), ("src/save_msh.cpp", """        throw std::runtime_error("Unable to write output file!");
    }
""", """        throw std::runtime_error("Unable to write output file!");
    }
    if (std::rename(temporary.c_str(), filename.c_str()) != 0) {
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", """#include <fstream>
""", """#include <cstdio>
#include <fstream>
""")], """
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++) {
        ts.emplace_back([&, t] {
            mshio::MshSpec s = demo::mesh("4.1", t % 2);
            s.node_data.push_back(demo::data("view" + std::to_string(t), 3, 300 + static_cast<size_t>(t)));
            const std::string want = demo::save(s), name = "f" + std::to_string(t) + ".msh";
            for (int i = 0; i < 200 && !bad; i++) {
                try {
                    mshio::save_msh(name, s);
                    if (demo::slurp(name) != want) bad++;
                } catch (const std::exception&) {
                    bad++;
                }
            }
        });
    }
    for (auto& t : ts) t.join();
    EXPECT(bad == 0);
""")
BUGS[-1]["prelude"] = "#include <atomic>\n#include <thread>\n"

bug("S21-cached-type", "C10", "two threads asking for the node counts of different element types; one is preempted between two adjacent stores",
    "the node count of the last element type is cached in two static variables that are not updated together",
    [("src/element_utils.cpp", """    return element_sizes[element_type];
""", """    static volatile int last_type = 0;
    static volatile size_t last_size = 0;
    if (last_type != element_type) {
        last_type = element_type;
        last_size = element_sizes[element_type];
    }
    return last_size;
""")], """
    mshio::MshSpec s[2];
    for (int t = 0; t < 2; t++) {
        s[t].mesh_format.version = "2.2";
        demo::add_nodes(s[t], 2, 1, 1, 4);
        std::vector<std::vector<size_t>> rows;
        for (size_t i = 0; i < 300; i++) rows.push_back(t ? std::vector<size_t>{i + 1, 1, 2, 3} : std::vector<size_t>{i + 1, 1, 2, 3, 4});
        demo::add_elements(s[t], 2, 1, t ? 2 : 3, rows);
    }
    const std::string doc[2] = {demo::save(s[0]), demo::save(s[1])};
    const std::vector<size_t> want[2] = {s[0].elements.entity_blocks[0].data, s[1].elements.entity_blocks[0].data};
    std::atomic<int> bad{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++) {
        ts.emplace_back([&, t] {
            for (int i = 0; i < 4000 && !bad; i++) {
                try {
                    if (demo::load(doc[t % 2]).elements.entity_blocks.at(0).data != want[t % 2]) bad++;
                } catch (const std::exception&) {
                    bad++;
                }
            }
        });
    }
    for (auto& t : ts) t.join();
    EXPECT(bad == 0);
""")
BUGS[-1]["prelude"] = "#include <atomic>\n#include <thread>\n"
