#!/usr/bin/env python3
"""Edits of MshIO that keep its behaviour: every check has to stay quiet on them.

  refactors.py [--runs N] [--props C01,C02] [ID...]
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = {}


def ed(id, *edits):
    EDITS[id] = edits


ed("slurp-file", ("src/load_msh.cpp", "    return load_msh(fin);\n", """    std::string contents;
    std::vector<char> chunk(1 << 14);
    for (;;) {
        const std::streamsize n = fin.rdbuf()->sgetn(chunk.data(), static_cast<std::streamsize>(chunk.size()));
        if (n <= 0) break;
        contents.append(chunk.data(), static_cast<size_t>(n));
    }
    std::istringstream in(contents, std::ios::binary);
    return load_msh(in);
"""), ("src/load_msh.cpp", "#include <string>\n", "#include <sstream>\n#include <string>\n#include <vector>\n"))

ed("temp-and-rename", ("src/save_msh.cpp", "    std::ofstream fout(filename.c_str(), std::ios::binary);\n", """    const std::string temporary = filename + ".part";
    std::ofstream fout(temporary.c_str(), std::ios::binary);
"""), ("src/save_msh.cpp", """    save_msh(fout, spec);
    fout.close();
    if (!fout) {
        throw std::runtime_error("Unable to write output file!");
    }
""", """    try {
        save_msh(fout, spec);
        fout.close();
    } catch (...) {
        fout.close();
        std::remove(temporary.c_str());
        throw;
    }
    if (!fout || std::rename(temporary.c_str(), filename.c_str()) != 0) {
        std::remove(temporary.c_str());
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", "#include <fstream>\n", "#include <cstdio>\n#include <fstream>\n"))

ed("save-through-memory", ("src/save_msh.cpp", """    save_msh(fout, spec);
    fout.close();
""", """    std::ostringstream contents(std::ios::binary);
    contents.exceptions(std::ios::badbit | std::ios::failbit);
    save_msh(contents, spec);
    const std::string bytes = contents.str();
    fout.write(bytes.data(), static_cast<std::streamsize>(bytes.size()));
    fout.close();
"""), ("src/save_msh.cpp", "#include <stdexcept>\n", "#include <sstream>\n#include <stdexcept>\n"))

ed("newline-not-endl", *[(f, None, None) for f in ("src/save_msh_nodes.cpp", "src/save_msh_elements.cpp", "src/save_msh_entities.cpp", "src/save_msh_data.cpp",
    "src/save_msh_physical_groups.cpp", "src/save_msh_format.cpp", "src/save_msh_curves.cpp", "src/save_msh_patches.cpp", "src/save_msh_nanospline_format.h")])

ed("throwing-save", ("src/save_msh.cpp", "    formatted.rdbuf(out.rdbuf());\n", "    formatted.rdbuf(out.rdbuf());\n    formatted.exceptions(std::ios::badbit | std::ios::failbit);\n"),
   ("src/save_msh.cpp", "    save_msh_sections(formatted, spec);\n", """    try {
        save_msh_sections(formatted, spec);
    } catch (const std::ios_base::failure&) {
        out.setstate(std::ios_base::badbit);
        return;
    }
"""))

ed("table-switch", ("src/element_utils.cpp", "    constexpr size_t element_sizes[] = {0,", "    static const std::vector<size_t> element_sizes = {0,"),
   ("src/element_utils.cpp", "    constexpr int element_dims[] = {0,", "    static const std::map<int, int> unused = {{1, 1}};\n    static const std::vector<int> element_dims = {0,"),
   ("src/element_utils.cpp", "    return element_sizes[element_type];", "    return element_sizes[static_cast<size_t>(element_type)];"),
   ("src/element_utils.cpp", "    return element_dims[element_type];", "    return element_dims[static_cast<size_t>(element_type) * unused.size()];"),
   ("src/element_utils.cpp", "#include \"element_utils.h\"\n", "#include \"element_utils.h\"\n#include <map>\n#include <vector>\n"))

ed("chunked-arrays", ("src/load_msh_nodes.cpp", """        in.read(reinterpret_cast<char*>(block.data.data()),
            static_cast<std::streamsize>(
                sizeof(double) * block.num_nodes_in_block * entries_per_node));
""", """        for (size_t done = 0; done < block.data.size();) {
            const size_t n = std::min<size_t>(block.data.size() - done, 1000);
            in.read(reinterpret_cast<char*>(block.data.data() + done), static_cast<std::streamsize>(sizeof(double) * n));
            done += n;
        }
"""))

ed("one-map", ("src/load_msh_post_process.cpp", "    std::map<size_t, size_t> entity_dims;\n    std::map<size_t, size_t> entity_tags;\n",
   "    std::map<size_t, std::pair<size_t, size_t>> entities;\n"),
   ("src/load_msh_post_process.cpp", "                entity_dims[idx] = block.entity_dim;\n                entity_tags[idx] = block.entity_tag;\n",
    "                entities[idx] = std::make_pair(static_cast<size_t>(block.entity_dim), static_cast<size_t>(block.entity_tag));\n"),
   ("src/load_msh_post_process.cpp", "            size_t dim = entity_dims[idx];\n            size_t tag = entity_tags[idx];\n",
    "            const auto found = entities.find(idx);\n            const size_t dim = found == entities.end() ? 0 : found->second.first;\n            const size_t tag = found == entities.end() ? 0 : found->second.second;\n"))

ed("mutex-cache", ("src/element_utils.cpp", "    return element_sizes[element_type];", """    static std::mutex guard;
    static int last_type = 0;
    static size_t last_size = 0;
    std::lock_guard<std::mutex> lock(guard);
    if (last_type != element_type) {
        last_size = element_sizes[element_type];
        last_type = element_type;
    }
    return last_size;"""), ("src/element_utils.cpp", "#include \"element_utils.h\"\n", "#include \"element_utils.h\"\n#include <mutex>\n"))

ed("spin-lock", ("src/element_utils.cpp", "    return element_sizes[element_type];", """    static std::atomic_flag guard = ATOMIC_FLAG_INIT;
    static int last_type = 0;
    static size_t last_size = 0;
    while (guard.test_and_set(std::memory_order_acquire)) {
    }
    if (last_type != element_type) {
        last_size = element_sizes[element_type];
        last_type = element_type;
    }
    const size_t result = last_size;
    guard.clear(std::memory_order_release);
    return result;"""), ("src/element_utils.cpp", "#include \"element_utils.h\"\n", "#include \"element_utils.h\"\n#include <atomic>\n"))

ed("thread-local-scratch", ("src/load_msh_elements.cpp", "    std::vector<int32_t> tags, node_ids;\n", "    thread_local std::vector<int32_t> tags, node_ids;\n    tags.clear();\n    node_ids.clear();\n"))

ed("line-buffer", ("src/save_msh_nodes.cpp", """        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
            out << block.tags[j] << std::endl;
        }
""", """        std::string lines;
        for (size_t j = 0; j < block.num_nodes_in_block; j++) {
            lines += std::to_string(block.tags[j]);
            lines += '\\n';
        }
        out << lines;
"""))

ed("shortest-double", ("src/save_msh_nodes.cpp", """                out << block.data[j * entries_per_node + k];
                if (k""", """                write_short(out, block.data[j * entries_per_node + k]);
                if (k"""), ("src/save_msh_nodes.cpp", "namespace mshio {\nnamespace v41 {\n", """namespace mshio {
namespace {
void write_short(std::ostream& out, double x)
{
    char buf[40];
    for (int p = 6; p <= 17; p++) {
        std::snprintf(buf, sizeof(buf), "%.*g", p, x);
        if (std::strtod(buf, nullptr) == x) break;
    }
    out << buf;
}
} // namespace
namespace v41 {
"""), ("src/save_msh_nodes.cpp", "#include <ostream>\n", "#include <cstdio>\n#include <cstdlib>\n#include <ostream>\n"))

ed("reordered-sections", ("src/save_msh.cpp", """    if (spec.node_data.size() > 0) {
        save_node_data(out, spec);
    }
    if (spec.element_data.size() > 0) {
        save_element_data(out, spec);
    }
""", """    if (!spec.element_data.empty()) {
        save_element_data(out, spec);
    }
    if (!spec.node_data.empty()) {
        save_node_data(out, spec);
    }
"""))

ed("default-template", ("src/load_msh_data.cpp", """    load_data_header(in, data.header);

""", """    DataHeader header;
    load_data_header(in, header);
    data.header = std::move(header);

"""))

ed("c-file-save", ("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    save_msh(fout, spec);
    fout.close();
    if (!fout) {
        throw std::runtime_error("Unable to write output file!");
    }
""", """    std::unique_ptr<std::FILE, int (*)(std::FILE*)> file(std::fopen(filename.c_str(), "wb"), &std::fclose);
    if (!file) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    std::ostringstream contents;
    contents.exceptions(std::ios::badbit | std::ios::failbit);
    save_msh(contents, spec);
    const std::string bytes = contents.str();
    const bool ok = std::fwrite(bytes.data(), 1, bytes.size(), file.get()) == bytes.size();
    if (std::fclose(file.release()) != 0 || !ok) {
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", "#include <stdexcept>\n", "#include <cstdio>\n#include <memory>\n#include <sstream>\n#include <stdexcept>\n"))

ed("c-file-load", ("src/load_msh.cpp", """    std::ifstream fin(filename.c_str(), std::ios::binary);
    if (!fin.is_open()) {
        throw std::runtime_error("Input file does not exist!");
    }
    return load_msh(fin);
""", """    std::unique_ptr<std::FILE, int (*)(std::FILE*)> file(std::fopen(filename.c_str(), "rb"), &std::fclose);
    if (!file) {
        throw std::runtime_error("Input file does not exist!");
    }
    std::string contents;
    char chunk[4096];
    size_t n = 0;
    while ((n = std::fread(chunk, 1, sizeof(chunk), file.get())) > 0) {
        contents.append(chunk, n);
    }
    if (std::ferror(file.get())) {
        throw std::runtime_error("Input file cannot be read!");
    }
    std::istringstream in(contents);
    return load_msh(in);
"""), ("src/load_msh.cpp", "#include <string>\n", "#include <cstdio>\n#include <memory>\n#include <sstream>\n#include <string>\n"))

ed("posix-save", ("src/save_msh.cpp", """    std::ofstream fout(filename.c_str(), std::ios::binary);
    if (!fout.is_open()) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    save_msh(fout, spec);
    fout.close();
    if (!fout) {
        throw std::runtime_error("Unable to write output file!");
    }
""", """    std::ostringstream contents;
    contents.exceptions(std::ios::badbit | std::ios::failbit);
    save_msh(contents, spec);
    const std::string bytes = contents.str();
    const int fd = ::open(filename.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
    if (fd < 0) {
        throw std::runtime_error("Unable to open output file to write!");
    }
    bool ok = true;
    for (size_t done = 0; ok && done < bytes.size();) {
        const ssize_t n = ::write(fd, bytes.data() + done, bytes.size() - done);
        if (n < 0 && errno == EINTR) continue;
        ok = n > 0;
        if (ok) done += static_cast<size_t>(n);
    }
    if (ok) ok = ::fsync(fd) == 0;
    if (::close(fd) != 0 || !ok) {
        throw std::runtime_error("Unable to write output file!");
    }
"""), ("src/save_msh.cpp", "#include <stdexcept>\n", "#include <sstream>\n#include <stdexcept>\n#include <fcntl.h>\n#include <unistd.h>\n#include <cerrno>\n"))

ed("mmap-load", ("src/load_msh.cpp", """    std::ifstream fin(filename.c_str(), std::ios::binary);
    if (!fin.is_open()) {
        throw std::runtime_error("Input file does not exist!");
    }
    return load_msh(fin);
""", """    const int fd = ::open(filename.c_str(), O_RDONLY);
    if (fd < 0) {
        throw std::runtime_error("Input file does not exist!");
    }
    std::string contents;
    char chunk[5000];
    for (;;) {
        const ssize_t n = ::read(fd, chunk, sizeof(chunk));
        if (n < 0 && errno == EINTR) continue;
        if (n < 0) {
            ::close(fd);
            throw std::runtime_error("Input file cannot be read!");
        }
        if (n == 0) break;
        try {
            contents.append(chunk, static_cast<size_t>(n));
        } catch (...) {
            ::close(fd);
            throw;
        }
    }
    ::close(fd);
    std::istringstream in(contents);
    return load_msh(in);
"""), ("src/load_msh.cpp", "#include <string>\n", "#include <cerrno>\n#include <sstream>\n#include <string>\n#include <fcntl.h>\n#include <unistd.h>\n"))

ed("parallel-save", ("src/save_msh.cpp", "    save_msh_sections(formatted, spec);\n", """    const std::vector<size_t> counts = {spec.nodes.num_nodes, spec.elements.num_elements};
    (void)std::accumulate(counts.begin(), counts.end(), size_t(0));
    save_msh_sections(formatted, spec);
"""), ("src/save_msh.cpp", "#include <stdexcept>\n", "#include <numeric>\n#include <stdexcept>\n#include <vector>\n"))


TABLE = """    return element_sizes[element_type];"""
ed("static-local-table", ("src/element_utils.cpp", TABLE, """    static const std::vector<size_t> sizes(element_sizes, element_sizes + 32);
    return sizes[static_cast<size_t>(element_type)];"""), ("src/element_utils.cpp", '#include "element_utils.h"\n', '#include "element_utils.h"\n\n#include <vector>\n'))
ed("double-checked-table", ("src/element_utils.cpp", TABLE, """    static size_t sizes[32];
    static std::atomic<bool> ready{false};
    static std::mutex guard;
    if (!ready.load(std::memory_order_acquire)) {
        std::lock_guard<std::mutex> hold(guard);
        if (!ready.load(std::memory_order_relaxed)) {
            for (int i = 0; i < 32; i++) sizes[i] = element_sizes[i];
            ready.store(true, std::memory_order_release);
        }
    }
    return sizes[element_type];"""), ("src/element_utils.cpp", '#include "element_utils.h"\n', '#include "element_utils.h"\n\n#include <atomic>\n#include <mutex>\n'))
ed("call-once-table", ("src/element_utils.cpp", TABLE, """    static size_t sizes[32];
    static std::once_flag once;
    std::call_once(once, [&] {
        for (int i = 0; i < 32; i++) sizes[i] = element_sizes[i];
    });
    return sizes[element_type];"""), ("src/element_utils.cpp", '#include "element_utils.h"\n', '#include "element_utils.h"\n\n#include <mutex>\n'))
ed("atomic-shared-ptr", ("src/element_utils.cpp", TABLE, """    static std::shared_ptr<const std::vector<size_t>> sizes;
    std::shared_ptr<const std::vector<size_t>> now = std::atomic_load(&sizes);
    if (!now) {
        now = std::make_shared<const std::vector<size_t>>(element_sizes, element_sizes + 32);
        std::atomic_store(&sizes, now);
    }
    return (*now)[static_cast<size_t>(element_type)];"""), ("src/element_utils.cpp", '#include "element_utils.h"\n', '#include "element_utils.h"\n\n#include <memory>\n#include <vector>\n'))
ed("shared-mutex-cache", ("src/element_utils.cpp", TABLE, """    static size_t sizes[32];
    static pthread_rwlock_t lock = PTHREAD_RWLOCK_INITIALIZER;
    pthread_rwlock_rdlock(&lock);
    size_t n = sizes[element_type];
    pthread_rwlock_unlock(&lock);
    if (n == 0) {
        pthread_rwlock_wrlock(&lock);
        n = sizes[element_type] = element_sizes[element_type];
        pthread_rwlock_unlock(&lock);
    }
    return n;"""), ("src/element_utils.cpp", '#include "element_utils.h"\n', '#include "element_utils.h"\n\n#include <pthread.h>\n'))
ed("atomic-counter", ("src/load_msh.cpp", "    std::ifstream fin(filename.c_str(), std::ios::binary);", """    static std::atomic<size_t> num_loaded{0};
    num_loaded.fetch_add(1, std::memory_order_relaxed);
    std::ifstream fin(filename.c_str(), std::ios::binary);"""), ("src/load_msh.cpp", "#include <string>\n", "#include <atomic>\n#include <string>\n"))


def main():
    a = sys.argv[1:]
    runs, props = "2000", ["C%02d" % i for i in range(1, 19)]
    if "--runs" in a:
        i = a.index("--runs")
        runs = a[i + 1]
        del a[i:i + 2]
    if "--props" in a:
        i = a.index("--props")
        props = a[i + 1].split(",")
        del a[i:i + 2]
    bad = 0
    for id in a or EDITS:
        tmp = tempfile.mkdtemp(prefix="mshio-ref-", dir="/tmp")
        wt = tmp + "/wt"
        try:
            subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
            for f, old, new in EDITS[id]:
                p = os.path.join(wt, f)
                t = open(p).read()
                if old is None:
                    t = t.replace("std::endl", "'\\n'")
                else:
                    assert t.count(old) == 1, (id, f, old, t.count(old))
                    t = t.replace(old, new)
                open(p, "w").write(t)
            env = dict(os.environ, SIM_REPO=wt, SIM_BUILD=tmp + "/b", SIM_EVIDENCE=tmp + "/ev", SIM_OUT=tmp + "/out")
            t0 = time.time()
            out = []
            for p in props:
                r = subprocess.run([sys.executable, os.path.join(V, "check.py"), p, "--runs", runs], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, errors="replace")
                if r.returncode != 0:
                    bad += 1
                    out.append("%s rc %d: %s" % (p, r.returncode, r.stdout[:1200]))
            print("%-22s %s (%.0f s)" % (id, "quiet" if not out else "ALARM", time.time() - t0), flush=True)
            for o in out:
                print("   " + o.replace("\n", "\n   "), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main())
