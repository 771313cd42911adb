#include <fcntl.h>
#include <dirent.h>
#include <dlpack/dlpack.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>

#include <mlio/integ/dlpack.h>

#include "datasets.h"
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
namespace V {
using namespace mlio;
const char *const property_id = "C21";
const char *const rule =
    "Each case either drives a reader over drawn stores (memory, mapped and plain files, gzip, doubles that count their streams, some failing) with reads, peeks, resets and drops of the reader, stores and "
    "examples in drawn order, comparing the examples kept with their first dump after every step; or it drops tensors, DLPack exports, memory blocks and slices in drawn order; or it runs drawn operations "
    "on intrusive pointers next to a model; or it makes openings fail; or a large dataset is read while the memory in use and the open and mapped files are watched, which must not grow with the data. Afterwards the file descriptors, mappings, temporary files, threads, streams and tracked objects must be those of before, and the leak "
    "sanitizer runs at the end of the process. Non-trivial: something was created and dropped. Distinct by configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 200000 : 12000; }

namespace {

std::atomic_long live_arrays{}, live_blocks{}, live_stores{}, live_nodes{};

template<typename T>
struct Tracked_array {
    using value_type = T;
    std::vector<T> v;
    explicit Tracked_array(std::vector<T> x) : v{std::move(x)} { live_arrays++; }
    Tracked_array(const Tracked_array &o) : v{o.v} { live_arrays++; }
    Tracked_array(Tracked_array &&o) noexcept : v{std::move(o.v)} { live_arrays++; }
    ~Tracked_array() { live_arrays--; }
    T *data() { return v.data(); }
    const T *data() const { return v.data(); }
    std::size_t size() const { return v.size(); }
    bool empty() const { return v.empty(); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
};

struct Tracked_block final : Memory_block {
    std::vector<std::byte> v;
    explicit Tracked_block(const Bytes &b) : v(b.size())
    {
        if (!b.empty()) std::memcpy(v.data(), b.data(), b.size());
        live_blocks++;
    }
    ~Tracked_block() final { live_blocks--; }
    const_pointer data() const noexcept final { return v.data(); }
    size_type size() const noexcept final { return v.size(); }
};

struct Tracked_store final : Data_store {
    Intrusive_ptr<Data_store> inner;
    explicit Tracked_store(Intrusive_ptr<Data_store> s) : inner{std::move(s)} { live_stores++; }
    ~Tracked_store() final { live_stores--; }
    Intrusive_ptr<Input_stream> open_read() const final { return inner->open_read(); }
    std::string repr() const final { return inner->repr(); }
    const std::string &id() const final { return inner->id(); }
};

struct Node : Intrusive_ref_counter<Node> {
    explicit Node(int i) : id{i} { live_nodes++; }
    virtual ~Node() { live_nodes--; }
    int id;
    int check = 0x5a5a;
    Intrusive_ptr<Node> next{};
};
struct Derived_node final : Node {
    explicit Derived_node(int i) : Node{i} {}
    std::string extra = "a string that does not fit into the object itself";
};

std::multiset<std::string> fds()
{
    std::multiset<std::string> r;
    DIR *d = ::opendir("/proc/self/fd");
    if (d == nullptr) return r;
    int self = ::dirfd(d);
    while (auto *e = ::readdir(d)) {
        if (e->d_name[0] == '.' || std::atoi(e->d_name) == self) continue;
        char b[4096];
        ssize_t n = ::readlink((std::string{"/proc/self/fd/"} + e->d_name).c_str(), b, sizeof b);
        if (n > 0) r.insert(std::string(e->d_name) + " " + std::string(b, static_cast<std::size_t>(n)));
    }
    ::closedir(d);
    return r;
}

std::vector<std::string> mappings(const std::string &scratch)
{
    std::vector<std::string> r;
    std::ifstream f{"/proc/self/maps"};
    for (std::string l; std::getline(f, l);)
        if (l.find(scratch) != std::string::npos || l.find("/tmp/mlio-") != std::string::npos) r.push_back(l);
    return r;
}

// A descriptor without the flag would be inherited, and kept open, by the child processes of the program.
void check_inheritance(Case &c, const std::string &when)
{
    for (auto &x : fds()) {
        if (x.find(c.scratch) == std::string::npos && x.find("/tmp/mlio-") == std::string::npos) continue;
        int flags = ::fcntl(std::atoi(x.c_str()), F_GETFD);
        // It might have been closed by now.
        if (flags == -1 || fds().count(x) == 0) continue;
        CHECK((flags & FD_CLOEXEC) != 0, "fd-inherited", "{}: child processes inherit the descriptor {}", when, x);
        c.count("descriptors checked for inheritance");
    }
}

std::set<std::string> temp_files()
{
    std::set<std::string> r;
    DIR *d = ::opendir("/tmp");
    if (d == nullptr) return r;
    while (auto *e = ::readdir(d))
        if (std::strncmp(e->d_name, "mlio-", 5) == 0) r.insert(e->d_name);
    ::closedir(d);
    return r;
}

std::size_t threads()
{
    std::size_t n = 0;
    DIR *d = ::opendir("/proc/self/task");
    if (d == nullptr) return 0;
    while (auto *e = ::readdir(d)) n += e->d_name[0] != '.';
    ::closedir(d);
    return n;
}

struct Census {
    std::multiset<std::string> fd = fds();
    std::set<std::string> tmp = temp_files();
    long arrays = live_arrays, blocks = live_blocks, stores = live_stores, nodes = live_nodes;

    void compare(Case &c, const std::string &when) const
    {
        for (auto &x : fds()) CHECK(fd.count(x) != 0, "fd-leak", "{}: the file descriptor {} is still open", when, x);
        for (auto &x : fd) CHECK(fds().count(x) != 0, "fd-closed", "{}: the file descriptor {} of somebody else has been closed", when, x);
        auto m = mappings(c.scratch);
        CHECK(m.empty(), "mapping-leak", "{}: still mapped: {}", when, m.empty() ? "" : m[0]);
        auto left = [&] {
            std::string r;
            for (auto &x : temp_files())
                if (tmp.count(x) == 0) r += x + " ";
            return r;
        };
        std::string l = left();
        for (int i = 0; i < 20 && !l.empty(); i++) {
            // Another process might just be creating one.
            std::this_thread::sleep_for(std::chrono::milliseconds{20});
            auto n = left();
            std::string both;
            std::istringstream is{l};
            for (std::string x; is >> x;)
                if (n.find(x) != std::string::npos) both += x + " ";
            l = both;
        }
        CHECK(l.empty(), "temp-file", "{}: the temporary file {} is left behind", when, l);
        CHECK(live_arrays == arrays, "array-leak", "{}: {} arrays are alive", when, live_arrays - arrays);
        CHECK(live_blocks == blocks, "block-leak", "{}: {} memory blocks are alive", when, live_blocks - blocks);
        CHECK(live_stores == stores, "store-leak", "{}: {} stores are alive", when, live_stores - stores);
        CHECK(live_nodes == nodes, "node-leak", "{}: {} nodes are alive", when, live_nodes - nodes);
        // The task pool may have as many threads as it likes, but a bounded number.
        std::size_t limit = 2 * std::thread::hardware_concurrency() + 6, n = threads();
        for (int i = 0; i < 200 && n > limit; i++) {
            std::this_thread::sleep_for(std::chrono::milliseconds{10});
            n = threads();
        }
        CHECK(n <= limit, "thread-leak", "{}: {} threads are running", when, n);
        c.count("censuses");
    }
};

// --- readers ---------------------------------------------------------------------------------

struct Kept {
    Intrusive_ptr<Example> ex;
    std::string dump;
    Intrusive_ptr<Tensor> tensor;
    DLManagedTensor *dl{};
    std::vector<std::byte> dl_bytes;
};

void reader_case(Case &c)
{
    Rng &r = c.rng;
    Tune tune;
    std::string knobs = Tune::randomize(r, true);
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.in(1, 40);
    g.num_stores = r.in(1, 4);
    g.bad = r.chance(0.2) ? 0.1 : 0;
    g.pad_len = r.chance(0.3) ? r.below(300) : 0;
    Dataset ds = make_dataset(r, g);
    std::string desc = kind_name(g.kind);
    std::vector<std::shared_ptr<Plan>> plans;
    std::vector<std::string> files;
    Data_reader_params p;
    for (std::size_t i = 0; i < ds.contents.size(); i++) {
        Bytes content = ds.contents[i];
        bool gz = r.chance(0.25);
        if (gz) content = deflate_bytes(content, 1);
        Intrusive_ptr<Data_store> s;
        unsigned how = static_cast<unsigned>(r.below(5));
        std::string path = fmt::format("{}/s{}", c.scratch, i);
        switch (how) {
        case 0:
            s = make_intrusive<In_memory_store>(Memory_slice{make_intrusive<Tracked_block>(content)}, gz ? Compression::gzip : Compression::none);
            break;
        case 1:
        case 2:
            write_file(path, content);
            files.push_back(path);
            s = make_intrusive<File>(path, how == 1, gz ? Compression::gzip : Compression::none);
            break;
        default: {
            if (gz) content = ds.contents[i];
            gz = false;
            auto pl = make_plan(content, path);
            pl->zero_copy = r.chance(0.3);
            if (r.chance(0.4)) pl->max_read = r.in(1, 100);
            if (r.chance(0.25)) {
                std::size_t at = r.below(content.size() + 1);
                Err e = static_cast<Err>(r.below(5));
                bool on_open = r.chance(0.3);
                desc += fmt::format(" fault({},{})", i, on_open ? -1 : static_cast<int>(at));
                if (on_open)
                    pl->on_open = [e](std::size_t n) {
                        if (n % 2 == 1) throw_err(e);
                    };
                else
                    pl->on_read = [at, e](std::size_t, std::size_t off) -> std::size_t {
                        if (off >= at) throw_err(e);
                        return at - off;
                    };
            }
            plans.push_back(pl);
            s = make_store(pl);
        }
        }
        desc += fmt::format(" {}{}", how, gz ? "z" : "");
        p.dataset.push_back(make_intrusive<Tracked_store>(std::move(s)));
    }
    if (r.chance(0.1)) {
        p.dataset.push_back(make_intrusive<File>(c.scratch + "/missing", r.chance(0.5)));
        desc += " missing";
    }
    p.batch_size = r.in(1, 6);
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(4);
    p.shuffle_instances = r.chance(0.2);
    p.shuffle_window = r.below(10);
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    p.last_example_handling = r.pick({Last_example_handling::none, Last_example_handling::drop, Last_example_handling::pad});
    c.describe(desc + " " + knobs);
    std::unique_ptr<Perturb> perturb;
    if (r.chance(0.3)) perturb = std::make_unique<Perturb>(r.next(), 1 + static_cast<unsigned>(r.below(3)));
    Log_capture log;
    std::vector<Intrusive_ptr<Data_store>> stores = p.dataset;
    auto rd = ds.open(p);
    p.dataset.clear();
    std::vector<Kept> kept;
    Intrusive_ptr<const Schema> schema;
    std::string schema_dump;
    auto keep = [&](const Intrusive_ptr<Example> &ex) {
        if (!ex) return;
        Kept k;
        k.ex = ex;
        k.dump = dump_example(*ex);
        if (r.chance(0.3)) {
            k.tensor = ex->features()[r.below(ex->features().size())];
            if (auto *dt = dynamic_cast<Dense_tensor *>(k.tensor.get()); dt != nullptr && dt->data_type() != Data_type::string && r.chance(0.5)) {
                k.dl = as_dlpack(*dt, DLPACK_VERSION);
                std::size_t n = dt->data().size() * k.dl->dl_tensor.dtype.bits / 8;
                auto *b = static_cast<const std::byte *>(k.dl->dl_tensor.data);
                k.dl_bytes.assign(b, b + n);
                c.count("exports of delivered tensors");
            }
        }
        c.count("examples kept");
        kept.push_back(std::move(k));
    };
    auto verify = [&](const std::string &when) {
        for (auto &k : kept) {
            if (k.ex) CHECK(dump_example(*k.ex) == k.dump, "changed", "an example changed ({}): {} was {}", when, quote(dump_example(*k.ex), 1500), quote(k.dump, 1500));
            if (k.dl != nullptr) {
                auto *b = static_cast<const std::byte *>(k.dl->dl_tensor.data);
                CHECK(std::equal(k.dl_bytes.begin(), k.dl_bytes.end(), b), "changed", "the data of an export changed ({})", when);
            }
        }
        if (schema) CHECK(dump_schema(schema.get()) == schema_dump, "changed", "the schema changed ({})", when);
    };
    std::size_t steps = r.in(1, 25);
    for (std::size_t i = 0; i < steps; i++) {
        unsigned op = static_cast<unsigned>(r.below(12));
        std::string when = fmt::format("step {}, operation {}", i, op);
        if (r.chance(0.1)) check_inheritance(c, when);
        try {
            if (op < 5 && rd)
                keep(rd->read_example());
            else if (op == 5 && rd)
                keep(rd->peek_example());
            else if (op == 6 && rd)
                rd->reset();
            else if (op == 7 && rd) {
                auto s = rd->read_schema();
                if (s && !schema) {
                    schema = s;
                    schema_dump = dump_schema(s.get());
                }
            }
            else if (op == 8 && !kept.empty()) {
                std::size_t k = r.below(kept.size());
                if (kept[k].ex)
                    kept[k].ex = nullptr;
                else {
                    kept[k].tensor = nullptr;
                    if (kept[k].dl != nullptr && r.chance(0.5)) {
                        kept[k].dl->deleter(kept[k].dl);
                        kept[k].dl = nullptr;
                    }
                }
            }
            else if (op == 9)
                stores.clear();
            else if (op == 10 && r.chance(0.3))
                rd = nullptr;
            else if (op == 11)
                while (rd && r.chance(0.9)) {
                    auto x = rd->read_example();
                    if (!x) break;
                    if (r.chance(0.3)) keep(x);
                }
        }
        catch (const Violation &) {
            throw;
        }
        catch (const std::exception &) {
            c.count("exceptions");
        }
        if (r.chance(0.3)) verify(when);
    }
    rd = nullptr;
    verify("after the reader");
    stores.clear();
    for (auto &f : files) ::unlink(f.c_str());
    verify("after the stores");
    // The readers and stores are gone although examples are left.
    for (auto &pl : plans) CHECK(pl->live == 0, "stream-leak", "{} streams of a store are alive after the reader", pl->live.load());
    CHECK(live_stores == 0, "store-leak", "{} stores are alive after the reader", live_stores.load());
    while (!kept.empty()) {
        std::size_t k = r.below(kept.size());
        std::swap(kept[k], kept.back());
        Kept x = std::move(kept.back());
        kept.pop_back();
        unsigned order = static_cast<unsigned>(r.below(3));
        if (order == 0) x.ex = nullptr;
        if (order == 1) x.tensor = nullptr;
        if (x.dl != nullptr) {
            if (order == 2) {
                x.ex = nullptr;
                x.tensor = nullptr;
            }
            auto *b = static_cast<const std::byte *>(x.dl->dl_tensor.data);
            CHECK(std::equal(x.dl_bytes.begin(), x.dl_bytes.end(), b), "changed", "the data of an export changed after its tensor");
            x.dl->deleter(x.dl);
        }
    }
}

// --- DLPack, tensors, blocks -----------------------------------------------------------------

template<Data_type dt>
std::unique_ptr<Device_array> tracked(Rng &r, std::size_t n)
{
    using T = data_type_t<dt>;
    std::vector<T> v(n);
    for (auto &x : v)
        if constexpr (std::is_same_v<T, std::string>)
            x = std::string(r.below(40), 'x');
        else if constexpr (std::is_class_v<T> || dt == Data_type::float16)
            std::memset(static_cast<void *>(&x), static_cast<int>(r.below(60)), sizeof x);
        else
            x = static_cast<T>(r.below(100));
    return wrap_cpu_array<dt>(Tracked_array<T>{std::move(v)});
}

std::unique_ptr<Device_array> tracked_any(Rng &r, Data_type dt, std::size_t n)
{
    switch (dt) {
#define K(x) \
    case Data_type::x: return tracked<Data_type::x>(r, n)
        K(size);
        K(float16);
        K(float32);
        K(float64);
        K(int8);
        K(int16);
        K(int32);
        K(int64);
        K(uint8);
        K(uint16);
        K(uint32);
        K(uint64);
        K(string);
#undef K
    }
    return {};
}

struct Dt_info {
    Data_type dt;
    int code, bits;
};
const std::vector<Dt_info> dt_info{
    {Data_type::size, kDLUInt, 64},    {Data_type::float16, kDLFloat, 16}, {Data_type::float32, kDLFloat, 32}, {Data_type::float64, kDLFloat, 64}, {Data_type::int8, kDLInt, 8},   {Data_type::int16, kDLInt, 16},
    {Data_type::int32, kDLInt, 32},    {Data_type::int64, kDLInt, 64},     {Data_type::uint8, kDLUInt, 8},     {Data_type::uint16, kDLUInt, 16},   {Data_type::uint32, kDLUInt, 32}, {Data_type::uint64, kDLUInt, 64},
    {Data_type::string, -1, 0}};

void tensor_case(Case &c)
{
    Rng &r = c.rng;
    auto info = r.pick(dt_info);
    Size_vector shape;
    Ssize_vector strides;
    std::size_t nd = r.in(0, 4);
    for (std::size_t i = 0; i < nd; i++) shape.push_back(r.in(1, 5));
    bool custom = r.chance(0.5);
    std::size_t need = 1;
    for (auto s : shape) need *= s;
    if (custom) {
        // A layout with gaps and the dimensions in any order.
        std::vector<std::size_t> order(nd);
        for (std::size_t i = 0; i < nd; i++) order[i] = i;
        for (std::size_t i = nd; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        strides.resize(nd);
        std::size_t step = 1;
        for (auto d : order) {
            step *= r.chance(0.3) ? r.in(1, 3) : 1;
            strides[d] = static_cast<std::ptrdiff_t>(step);
            step *= shape[d];
        }
        need = step;
    }
    need += r.chance(0.2) ? r.below(5) : 0;
    c.describe(fmt::format("tensor of type {} shape ({}) strides ({}) in {} elements", static_cast<int>(info.dt), fmt::join(shape, ","), fmt::join(strides, ","), need));
    long before = live_arrays;
    auto arr = tracked_any(r, info.dt, need);
    void *data = arr->data();
    auto t = make_intrusive<Dense_tensor>(shape, std::move(arr), strides);
    CHECK(live_arrays == before + 1, "array-count", "{} arrays", live_arrays - before);
    std::vector<DLManagedTensor *> exports;
    std::size_t n = r.in(1, 3);
    bool wrong_version = r.chance(0.1);
    for (std::size_t i = 0; i < n; i++) {
        DLManagedTensor *m = nullptr;
        bool thrown = false;
        try {
            m = as_dlpack(*t, wrong_version ? DLPACK_VERSION + 1 : DLPACK_VERSION);
        }
        catch (const Not_supported_error &) {
            thrown = true;
        }
        CHECK(thrown == (info.code < 0 || wrong_version), "export", "the export {}", thrown ? "fails" : "succeeds");
        if (m == nullptr) continue;
        auto &d = m->dl_tensor;
        CHECK(d.data == data && d.byte_offset == 0, "not-shared", "an export has its own data");
        CHECK(d.ctx.device_type == kDLCPU && d.ctx.device_id == 0, "device", "device type {} id {}", static_cast<int>(d.ctx.device_type), d.ctx.device_id);
        CHECK(d.dtype.code == info.code && d.dtype.bits == info.bits && d.dtype.lanes == 1, "dtype", "code {} bits {} lanes {}", +d.dtype.code, +d.dtype.bits, +d.dtype.lanes);
        CHECK(static_cast<std::size_t>(d.ndim) == nd, "ndim", "{} dimensions", d.ndim);
        exports.push_back(m);
        c.count("exports");
    }
    auto expected_strides = t->strides();
    auto check_exports = [&] {
        for (auto *m : exports) {
            auto &d = m->dl_tensor;
            for (std::size_t i = 0; i < nd; i++) {
                CHECK(d.shape[i] == static_cast<std::int64_t>(shape[i]), "shape", "dimension {} is {}", i, d.shape[i]);
                std::int64_t want = custom ? strides[i] : expected_strides[i];
                if (d.strides != nullptr) CHECK(d.strides[i] == want, "strides", "stride {} is {} instead of {}", i, d.strides[i], want);
            }
            if (custom && nd != 0) CHECK(d.strides != nullptr, "strides", "the strides are missing");
            // Everything the layout covers must be accessible.
            std::vector<std::size_t> idx(nd);
            std::size_t bytes = d.dtype.bits / 8;
            unsigned sum = 0;
            while (true) {
                std::int64_t off = 0;
                for (std::size_t i = 0; i < nd; i++) off += static_cast<std::int64_t>(idx[i]) * (d.strides != nullptr ? d.strides[i] : expected_strides[i]);
                auto *b = static_cast<const std::uint8_t *>(d.data) + static_cast<std::size_t>(off) * bytes;
                for (std::size_t k = 0; k < bytes; k++) sum += b[k];
                std::size_t k = nd;
                while (k > 0 && ++idx[k - 1] == shape[k - 1]) idx[--k] = 0;
                if (k == 0) break;
            }
            c.observe("export checksums", sum);
        }
    };
    check_exports();
    // Drop everything in a drawn order.
    Intrusive_ptr<Tensor> copy;
    if (r.chance(0.3)) copy = t;
    bool have = true;
    while (have || !exports.empty()) {
        if (have && (exports.empty() || r.chance(0.4))) {
            t = nullptr;
            copy = nullptr;
            have = false;
        }
        else {
            std::size_t k = r.below(exports.size());
            exports[k]->deleter(exports[k]);
            exports.erase(exports.begin() + static_cast<std::ptrdiff_t>(k));
        }
        bool alive = have || !exports.empty();
        CHECK(live_arrays == before + (alive ? 1 : 0), alive ? "released-early" : "released-never", "{} arrays are alive with tensor {} and {} exports", live_arrays - before, have, exports.size());
        check_exports();
    }
    // Sparse tensors have no export; a failed export keeps no reference.
    if (r.chance(0.3) && info.dt != Data_type::string) {
        Intrusive_ptr<Tensor> s;
        if (r.chance(0.5)) {
            std::vector<std::unique_ptr<Device_array>> co;
            co.push_back(tracked<Data_type::size>(r, 3));
            co.push_back(tracked<Data_type::size>(r, 3));
            s = make_intrusive<Coo_tensor>(Size_vector{200, 200}, tracked_any(r, info.dt, 3), std::move(co));
        }
        else
            s = make_intrusive<Csr_tensor>(Size_vector{2, 200}, tracked_any(r, info.dt, 3), tracked<Data_type::size>(r, 3), tracked<Data_type::size>(r, 3));
        bool thrown = false;
        try {
            as_dlpack(*s, DLPACK_VERSION);
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown && s->use_count() == 1, "failed-export", "exception {} references {}", thrown, s->use_count());
    }
    // Tensors that cannot be constructed release what they have been given.
    if (r.chance(0.3)) {
        bool thrown = false;
        try {
            make_intrusive<Dense_tensor>(Size_vector{need + 1}, tracked_any(r, info.dt, need));
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown, "too-small", "a tensor of {} elements is constructed from {}", need + 1, need);
    }
}

void block_case(Case &c)
{
    Rng &r = c.rng;
    unsigned kind = static_cast<unsigned>(r.below(4));
    std::size_t n = r.chance(0.1) ? 0 : r.chance(0.2) ? r.in(4000, 20000) : r.below(500);
    c.describe(fmt::format("memory block kind {} of {} bytes", kind, n));
    Bytes b;
    while (b.size() < n) b += static_cast<char>(r.next());
    Intrusive_ptr<Memory_block> blk;
    Intrusive_ptr<Mutable_memory_block> mut;
    std::string path = c.scratch + "/block";
    switch (kind) {
    case 0:
        mut = make_intrusive<Heap_memory_block>(n);
        break;
    case 1:
        mut = make_intrusive<File_backed_memory_block>(n);
        break;
    case 2:
        write_file(path, b);
        blk = make_intrusive<File_mapped_memory_block>(path);
        ::unlink(path.c_str());
        break;
    default:
        blk = make_intrusive<Tracked_block>(b);
    }
    if (mut) {
        CHECK(mut->size() == n, "block-size", "{} bytes", mut->size());
        if (n != 0) std::memcpy(mut->data(), b.data(), n);
        std::size_t k = r.below(5);
        if (r.chance(0.2)) check_inheritance(c, "memory block");
        for (std::size_t i = 0; i < k; i++) {
            std::size_t m = r.chance(0.1) ? 0 : r.chance(0.3) ? r.in(4000, 30000) : r.below(700);
            mut->resize(m);
            CHECK(mut->size() == m, "block-size", "{} bytes after a resize to {}", mut->size(), m);
            std::size_t common = std::min(m, b.size());
            CHECK(common == 0 || std::memcmp(mut->data(), b.data(), common) == 0, "block-bytes", "the first {} bytes changed in a resize from {} to {}", common, b.size(), m);
            b.resize(m);
            for (std::size_t j = common; j < m; j++) b[j] = static_cast<char>(r.next());
            if (m != 0) std::memcpy(mut->data(), b.data(), m);
            c.count("resizes");
        }
        blk = std::move(mut);
    }
    // Slices keep the block.
    struct S {
        Memory_slice s;
        Bytes want;
    };
    std::vector<S> slices;
    std::size_t k = r.in(1, 6);
    for (std::size_t i = 0; i < k; i++) {
        Memory_slice s{blk};
        Bytes w = b;
        std::size_t cuts = r.below(4);
        for (std::size_t j = 0; j < cuts; j++) {
            std::size_t off = r.below(w.size() + 1), len = r.below(w.size() - off + 1);
            if (r.chance(0.5))
                s = s.subslice(off, len);
            else
                s = std::move(s).subslice(off, len);
            w = w.substr(off, len);
        }
        slices.push_back({s, w});
    }
    if (r.chance(0.5)) {
        auto s = make_intrusive<Memory_input_stream>(Memory_slice{blk});
        auto x = s->read(r.below(b.size() + 1));
        Bytes want = b.substr(0, x.size());
        slices.push_back({x, want});
    }
    blk = nullptr;
    while (!slices.empty()) {
        for (auto &x : slices) CHECK(slice_bytes(x.s) == x.want, "slice-bytes", "a slice changed");
        slices.erase(slices.begin() + static_cast<std::ptrdiff_t>(r.below(slices.size())));
        c.count("slices dropped");
    }
    // Allocations that fail.
    if (r.chance(0.3)) {
        bool thrown = false;
        try {
            make_intrusive<File_backed_memory_block>(std::size_t{1} << 62U);
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown, "allocation", "an allocation of 2^62 bytes succeeds");
        c.count("failed allocations");
    }
    if (r.chance(0.2)) {
        auto m = make_intrusive<File_backed_memory_block>(100);
        std::memcpy(m->data(), "abc", 3);
        bool thrown = false;
        try {
            m->resize(std::size_t{1} << 62U);
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown && m->size() == 100 && std::memcmp(m->data(), "abc", 3) == 0, "allocation", "a failed resize changed the block");
    }
}

// --- intrusive pointers ----------------------------------------------------------------------

void pointer_case(Case &c)
{
    Rng &r = c.rng;
    c.describe("intrusive pointers");
    constexpr std::size_t N = 6;
    // Nodes of the model: the objects the slots and the next members point to.
    std::vector<Intrusive_ptr<Node>> slot(N);
    std::vector<int> model(N, -1);
    std::map<int, int> next;  // of the nodes alive
    std::map<int, Node *> addr;
    int ids = 0;
    auto reachable = [&] {
        std::set<int> s;
        for (int i : model)
            while (i != -1 && s.insert(i).second) i = next[i];
        return s;
    };
    // A link must not create a cycle: those are never released.
    auto reaches = [&](int from, int to) {
        for (int i = from; i != -1; i = next[i])
            if (i == to) return true;
        return false;
    };
    std::size_t steps = r.in(5, 60);
    std::string ops;
    long before = live_nodes;
    for (std::size_t i = 0; i < steps; i++) {
        std::size_t a = r.below(N), b = r.below(N);
        unsigned op = static_cast<unsigned>(r.below(14));
        ops += fmt::format("{}({},{}) ", op, a, b);
        c.desc_ = ops;
        switch (op) {
        case 0:
            slot[a] = make_intrusive<Node>(ids);
            model[a] = ids;
            addr[ids] = slot[a].get();
            next[ids++] = -1;
            break;
        case 1: {
            auto d = make_intrusive<Derived_node>(ids);
            if (r.chance(0.5))
                slot[a] = d;
            else
                slot[a] = std::move(d);
            model[a] = ids;
            addr[ids] = slot[a].get();
            next[ids++] = -1;
            break;
        }
        case 2:
        case 3:
            slot[a] = slot[b];
            model[a] = model[b];
            break;
        case 4:
            if (a != b) {
                slot[a] = std::move(slot[b]);
                model[a] = model[b];
                model[b] = -1;
            }
            break;
        case 5:
            slot[a] = nullptr;
            model[a] = -1;
            break;
        case 6: {
            Intrusive_ptr<Node> x{slot[a]}, y{std::move(x)};
            slot[b] = y;
            model[b] = model[a];
            break;
        }
        case 7:
            if (model[a] != -1 && model[b] != -1 && !reaches(model[b], model[a])) {
                slot[a]->next = slot[b];
                next[model[a]] = model[b];
            }
            break;
        case 8:
            // Advance along a list; the node left may die.
            if (model[a] != -1) {
                slot[a] = slot[a]->next;
                model[a] = next[model[a]];
            }
            break;
        case 9:
            if (model[a] != -1) {
                int n = next[model[a]];
                next[model[a]] = -1;
                slot[a] = std::move(slot[a]->next);
                model[a] = n;
            }
            break;
        case 10:
            if (model[a] != -1) {
                slot[a]->next = nullptr;
                next[model[a]] = -1;
            }
            break;
        case 11: {
            Node *p = slot[a].release();
            slot[a] = wrap_intrusive(p, false);
            break;
        }
        case 12:
            if (slot[a]) slot[b] = wrap_intrusive(slot[a].get(), true);
            else slot[b] = nullptr;
            model[b] = model[a];
            break;
        default:
            std::swap(slot[a], slot[b]);
            std::swap(model[a], model[b]);
        }
        auto live = reachable();
        CHECK(live_nodes - before == static_cast<long>(live.size()), "node-count", "{} nodes are alive instead of {} after {}", live_nodes - before, live.size(), ops);
        for (std::size_t k = 0; k < N; k++) {
            CHECK((model[k] == -1) == !slot[k], "node-null", "slot {} after {}", k, ops);
            if (!slot[k]) continue;
            CHECK(slot[k].get() == addr[model[k]] && slot[k]->id == model[k] && slot[k]->check == 0x5a5a, "node-identity", "slot {} holds {} after {}", k, slot[k]->id, ops);
            std::size_t refs = 0;
            for (int m : model) refs += m == model[k];
            for (int m : live) refs += next[m] == model[k];
            CHECK(slot[k]->use_count() == refs, "use-count", "node {} has {} references instead of {} after {}", model[k], slot[k]->use_count(), refs, ops);
        }
        c.count("pointer operations");
    }
    c.describe("intrusive pointers: " + ops);
}

// --- failing openings ------------------------------------------------------------------------

void open_case(Case &c)
{
    Rng &r = c.rng;
    unsigned kind = static_cast<unsigned>(r.below(7));
    c.describe(fmt::format("failing opening {}", kind));
    auto pl = make_plan(Bytes(r.below(40), 'x'));
    bool expect = true, thrown = false;
    std::string path = c.scratch + "/f";
    try {
        switch (kind) {
        case 0: {
            // Not a gzip stream.
            auto s = make_intrusive<Gzip_inflate_stream>(make_store(pl)->open_read());
            std::byte b[10];
            expect = !pl->content.empty();
            while (s->read(Mutable_memory_span{b, 10}) != 0) {
            }
            break;
        }
        case 1: {
            pl->on_read = [](std::size_t, std::size_t) -> std::size_t { throw_err(Err::stream); };
            make_utf8_stream(make_store(pl)->open_read());
            break;
        }
        case 2:
            make_utf8_stream(make_store(pl)->open_read(), Text_encoding{"no-such-encoding"});
            break;
        case 3:
            make_intrusive<File>(c.scratch + "/missing", r.chance(0.5))->open_read();
            break;
        case 4:
            // A directory.
            make_intrusive<File>(c.scratch, true)->open_read();
            break;
        case 5:
            make_intrusive<File_mapped_memory_block>(c.scratch + "/missing");
            break;
        default: {
            write_file(path, "not gzip");
            auto s = make_intrusive<File>(path, r.chance(0.5), Compression::gzip)->open_read();
            ::unlink(path.c_str());
            std::byte b[10];
            s->read(Mutable_memory_span{b, 10});
        }
        }
    }
    catch (const std::exception &) {
        thrown = true;
    }
    CHECK(thrown == expect, "no-exception", "opening {} raises {} exception", kind, thrown ? "an" : "no");
    CHECK(pl->live == 0, "stream-leak", "{} streams are alive after a failed opening", pl->live.load());
    c.count("failed openings");
}

// A reader that is read to its end keeps nothing of what it has delivered: its memory, descriptors and mappings do not grow with the data.
void steady_case(Case &c)
{
    Rng &r = c.rng;
    Tune tune;
    constexpr std::size_t chunk = 4096;
    Tune::chunk(chunk);
    Tune::inflate(chunk);
    Tune::utf8(chunk);
    Tune::instance(8);
    if (r.chance(0.3)) Tune::cut_off(1);
    Data_reader_params p;
    p.batch_size = r.in(1, 3);
    p.num_prefetched_examples = r.in(1, 2);
    p.num_parallel_reads = r.in(1, 2);
    std::size_t len = r.in(1000, 5000), window = 0;
    if (r.chance(0.3)) {
        p.shuffle_instances = true;
        window = p.shuffle_window = r.in(2, 8);
    }
    if (r.chance(0.2)) p.sample_ratio = 0.7F;
    if (r.chance(0.2)) p.num_shards = 2;
    bool text = r.chance(0.4), wide = r.chance(0.3);
    if (r.chance(0.3)) p.last_example_handling = Last_example_handling::pad;
    if (r.chance(0.3)) p.bad_example_handling = Bad_example_handling::pad;
    if (p.sample_ratio) len = r.in(500, 1500);
    std::size_t ahead = (2 * p.num_prefetched_examples + p.num_parallel_reads + 4) * p.batch_size * (p.num_shards > 1 ? 2 : 1) + window + (p.sample_ratio ? 120 : 0);  // a sampler collects some instances
    std::size_t slack = ahead * (len + chunk) * 3 + 300'000;
    std::size_t rows = 4 * slack / len + 50, per_store = r.in(2, 40);
    std::size_t how = r.below(5);
    std::vector<std::string> files;
    std::vector<std::shared_ptr<Plan>> plans;
    for (std::size_t i = 0; i < rows;) {
        Bytes b;
        if (wide) b = "\xff\xfe";
        for (std::size_t k = 0; k < per_store && i < rows; k++, i++) {
            Bytes l(len - r.below(100), static_cast<char>('a' + i % 26));
            l += '\n';
            for (char x : l) {
                b += x;
                if (wide) b += '\0';
            }
        }
        bool gz = how == 4;
        if (gz) b = deflate_bytes(b, 1);
        if (how == 0)
            p.dataset.push_back(memory_store(b));
        else if (how == 1) {
            auto plan = make_plan(b);
            plan->max_read = r.in(100, 5000);
            plan->zero_copy = plan->seekable = r.chance(0.3);
            plans.push_back(plan);
            p.dataset.push_back(make_store(plan));
        }
        else {
            std::string path = fmt::format("{}/y{}", c.scratch, files.size());
            write_file(path, b);
            files.push_back(path);
            p.dataset.push_back(make_intrusive<File>(path, how == 2, gz ? Compression::gzip : Compression::none));
        }
    }
    c.describe(fmt::format("steady {} store-kind={} utf16={} rows={} of {} stores={} batch={} prefetch={} parallel={} window={} sample={} shards={}", text ? "text" : "csv", how, wide, rows, len, p.dataset.size(), p.batch_size, p.num_prefetched_examples, p.num_parallel_reads, window, p.sample_ratio.has_value(), p.num_shards));
    std::size_t batches = static_cast<std::size_t>(static_cast<double>(rows) / static_cast<double>(p.num_shards > 1 ? 2 : 1) * (p.sample_ratio ? 0.7 : 1.0)) / p.batch_size;
    Intrusive_ptr<Data_reader> rd;
    if (text)
        rd = make_intrusive<Text_line_reader>(p);
    else {
        Csv_params cp{};
        cp.header_row_index = std::nullopt;
        cp.default_data_type = Data_type::string;
        rd = make_intrusive<Csv_reader>(p, cp);
    }
    auto own_fds = [&] {
        std::size_t n = 0;
        for (auto &x : fds()) n += x.find(c.scratch) != std::string::npos ? 1 : 0;
        return n;
    };
    auto live = [&] {
        std::size_t n = 0;
        for (auto &x : plans) n += x->live;
        return n;
    };
    for (std::size_t ep = 0, eps = r.in(1, 2); ep < eps; ep++) {
        if (ep != 0) rd->reset();
        std::size_t n = 0, base = 0, seen = 0;
        for (;; n++) {
            if (rd->read_example() == nullptr) break;
            if (n == batches / 4) base = __sanitizer_get_current_allocated_bytes();
            if (n > batches / 4 && n % 16 == 0) {
                std::size_t now = __sanitizer_get_current_allocated_bytes();
                CHECK(now <= base + slack, "growth", "{} bytes are in use after {} of {} examples, and {} bytes were after {}; at most {} bytes are read ahead", now, n, batches, base, batches / 4, slack);
                seen++;
            }
            if (n == batches / 2 || n == batches - batches / 8) {
                // Data that is read ahead can keep the mapping of its file.
                std::size_t f = own_fds(), m = mappings(c.scratch).size(), l = live();
                CHECK(f <= 2, "growth", "{} files are open after {} of {} examples", f, n, batches);
                CHECK(m <= ahead + 3, "growth", "{} files are mapped after {} of {} examples", m, n, batches);
                CHECK(l <= 2, "growth", "{} streams are open after {} of {} examples", l, n, batches);
            }
        }
        CHECK(n + 2 >= batches, "setup", "only {} of {} examples", n, batches);
        c.count("readings of the memory in use", seen);
    }
    rd = nullptr;
    p.dataset.clear();
    for (auto &f : files) ::unlink(f.c_str());
    c.count("datasets read in constant space");
    c.nontrivial = true;
}

}  // namespace

// A process without standard input gets descriptor 0 for the first file that it opens.
struct Free_zero {
    int saved = -1;
    explicit Free_zero(bool on)
    {
        if (on && (saved = ::fcntl(0, F_DUPFD_CLOEXEC, 500)) != -1) ::close(0);
    }
    ~Free_zero()
    {
        if (saved == -1) return;
        ::dup2(saved, 0);
        ::close(saved);
    }
};

void run_case(Case &c)
{
    Free_zero zero{c.rng.chance(0.25)};
    if (zero.saved != -1) c.count("cases without standard input");
    Census before;
    unsigned d = static_cast<unsigned>(c.rng.below(100));
    if (c.rng.chance(0.012))
        steady_case(c);
    else if (d < 55)
        reader_case(c);
    else if (d < 70)
        tensor_case(c);
    else if (d < 82)
        block_case(c);
    else if (d < 93)
        pointer_case(c);
    else
        open_case(c);
    before.compare(c, "at the end of the case");
}
}  // namespace V
