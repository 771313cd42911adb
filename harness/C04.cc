#include <dlpack/dlpack.h>
#include <fcntl.h>
#include <iconv.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include <mlio/integ/dlpack.h>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C04";
const char *const rule =
    "Each case runs under ThreadSanitizer: one reader that is read, peeked, reset, queried and destroyed at drawn moments while another thread polls num_bytes_read and a third one consumes the examples; "
    "several readers in several threads that share stores; or several threads that use the same stores, schemas, examples, tensors, slices, channels and the logger. Drawn delays at the pipeline's points "
    "and parallel decoding of small batches diversify the schedules; the monitors themselves use no synchronisation that could hide a race. The rows delivered are compared as well. "
    "Non-trivial: at least two threads worked on shared objects. Distinct by configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 3200; }

#ifdef VERIF_TSAN
extern std::atomic<unsigned long> handed_over;
#else
std::atomic<unsigned long> handed_over{};
#endif

namespace {

// Relaxed accesses do not order anything.
std::atomic<std::uint64_t> noise_seed{};
std::atomic<unsigned> noise_level{};
std::atomic<std::uint64_t> order_hash{};
std::atomic<std::uint64_t> points{};

void noise(const char *what)
{
    thread_local std::uint64_t state = noise_seed.load(std::memory_order_relaxed) ^ reinterpret_cast<std::uintptr_t>(&state);
    state = state * 6364136223846793005ULL + 1442695040888963407ULL;
    points.fetch_add(1, std::memory_order_relaxed);
    std::uint64_t h = order_hash.load(std::memory_order_relaxed);
    order_hash.store((h ^ static_cast<unsigned char>(what[0] + what[1])) * 1099511628211ULL, std::memory_order_relaxed);
    auto x = static_cast<unsigned>(state >> 40U);
    unsigned level = noise_level.load(std::memory_order_relaxed);
    if (level == 0) return;
    if (x % 4 == 0)
        std::this_thread::yield();
    else if (x % 16 < level)
        std::this_thread::sleep_for(std::chrono::microseconds{x / 16 % 300});
}

struct Noise {
    explicit Noise(Rng &r)
    {
        noise_seed.store(r.next(), std::memory_order_relaxed);
        noise_level.store(r.chance(0.3) ? 0 : static_cast<unsigned>(r.in(1, 6)), std::memory_order_relaxed);
        order_hash.store(1469598103934665603ULL, std::memory_order_relaxed);
        mlio::verif::point_callback = &noise;
    }
    ~Noise() { mlio::verif::point_callback = nullptr; }
};

std::atomic<std::size_t> log_bytes{};

void log_sink(Log_level, std::string_view m)
{
    std::size_t n = 0;
    for (char ch : m) n += static_cast<unsigned char>(ch);
    log_bytes.fetch_add(n, std::memory_order_relaxed);
}

struct Logging {
    explicit Logging(Rng &r)
    {
        on = r.chance(0.4);
        if (!on) return;
        set_log_message_handler(&log_sink);
        set_log_level(r.pick({Log_level::warning, Log_level::info, Log_level::debug}));
    }
    ~Logging()
    {
        if (!on) return;
        set_log_level(Log_level::off);
        set_log_message_handler({});
    }
    bool on;
};

void run_threads(std::size_t n, const std::function<void(std::size_t)> &f)
{
    std::atomic<std::size_t> ready{};
    std::vector<std::exception_ptr> err(n);
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < n; i++)
        ts.emplace_back([&, i] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
            try {
                f(i);
            }
            catch (...) {
                err[i] = std::current_exception();
            }
        });
    for (auto &t : ts) t.join();
    for (auto &e : err)
        if (e) std::rethrow_exception(e);
}

struct Data {
    Dataset ds;
    std::vector<Intrusive_ptr<Data_store>> stores;
    std::vector<std::string> files;
    Data_reader_params p;
    std::multiset<std::string> expected;
    bool bad = false;
    ~Data()
    {
        for (auto &f : files) ::unlink(f.c_str());
    }
};

// Converts a text to UTF-16 with a byte order mark; an empty or invalid one stays as it is.
bool to_utf16(Bytes &b)
{
    if (b.empty()) return false;
    iconv_t cd = iconv_open("UTF-16", "UTF-8");
    if (cd == reinterpret_cast<iconv_t>(-1)) return false;
    Bytes out(b.size() * 4 + 16, '\0');
    char *i = b.data(), *o = out.data();
    std::size_t il = b.size(), ol = out.size();
    bool ok = iconv(cd, &i, &il, &o, &ol) != static_cast<std::size_t>(-1);
    iconv_close(cd);
    if (!ok) return false;
    out.resize(out.size() - ol);
    b = out;
    return true;
}

void make_data(Case &c, Data &d, bool doubles)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.in(1, 40);
    g.num_stores = r.in(1, 4);
    d.bad = r.chance(0.2);
    if (d.bad) g.bad = 0.1;
    if (d.bad && g.kind == Kind::text) d.bad = false;
    d.ds = make_dataset(r, g);
    static std::size_t serial = 0;
    std::string desc = kind_name(g.kind);
    bool wide = (g.kind == Kind::csv || g.kind == Kind::text) && r.chance(0.3);
    if (wide) desc += " UTF-16";
    for (std::size_t i = 0; i < d.ds.contents.size(); i++) {
        Bytes b = d.ds.contents[i];
        if (wide && to_utf16(b)) c.count("stores in UTF-16");
        Bytes plain = b;
        bool gz = r.chance(0.2);
        if (gz) b = deflate_bytes(b, 1);
        unsigned how = static_cast<unsigned>(r.below(doubles ? 4 : 3));
        if (how == 3) {
            auto p = make_plan(plain);
            p->max_read = r.in(1, 200);
            p->delay_us = r.chance(0.3) ? 100 : 0;
            d.stores.push_back(make_store(p));
        }
        else if (how == 0)
            d.stores.push_back(memory_store(b, gz ? Compression::gzip : Compression::none));
        else {
            std::string path = fmt::format("{}/r{}", c.scratch, serial++);
            write_file(path, b);
            d.files.push_back(path);
            d.stores.push_back(make_intrusive<File>(path, how == 1, gz ? Compression::gzip : Compression::none));
        }
        desc += fmt::format(" {}{}", how, gz ? "z" : "");
    }
    d.p.dataset = d.stores;
    d.p.batch_size = r.in(1, 8);
    d.p.num_prefetched_examples = r.below(5);
    d.p.num_parallel_reads = r.below(5);
    d.p.shuffle_instances = r.chance(0.2);
    d.p.shuffle_window = r.below(9);
    d.p.warn_bad_instances = r.chance(0.5);
    if (d.bad) d.p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    for (auto &s : d.ds.dumps()) d.expected.insert(s);
    c.describe(fmt::format("{} rows={} batch={} prefetch={} parallel={} shuffle={} bad={}", desc, d.ds.size(), d.p.batch_size, d.p.num_prefetched_examples, d.p.num_parallel_reads, d.p.shuffle_instances, d.bad ? static_cast<int>(d.p.bad_example_handling) : -1));
}

// Reads an epoch and compares the rows.
void whole_epoch(Case &c, const Data &d, Data_reader &rd)
{
    std::multiset<std::string> got;
    try {
        while (auto ex = rd.read_example())
            for (auto &row : example_rows(*ex)) got.insert(row);
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &x) {
        CHECK(d.bad, "exception", "{}: {}", exc_type(x), x.what());
    }
    if (!d.bad) CHECK(got == d.expected, "rows", "{} rows are delivered, {} expected", got.size(), d.expected.size());
    (void)c;
}

void one_reader(Case &c)
{
    Rng &r = c.rng;
    Data d;
    make_data(c, d, true);
    Logging log{r};
    Noise n{r};
    auto rd = d.ds.open(d.p);
    std::atomic<bool> stop{};
    std::uint64_t sum = 0;
    bool poll = r.chance(0.6);
    std::uint64_t seed2 = r.next();
    std::thread poller;
    if (poll)
        poller = std::thread{[&, p = rd] {
            Rng x{seed2};
            while (!stop.load(std::memory_order_relaxed)) {
                sum += p->num_bytes_read();
                std::this_thread::sleep_for(std::chrono::microseconds{x.below(100)});
            }
        }};
    // Another thread uses and drops the examples.
    std::mutex m;
    std::vector<Intrusive_ptr<Example>> given;
    std::thread user;
    bool use = r.chance(0.5);
    std::size_t used = 0;
    if (use)
        user = std::thread{[&] {
            while (true) {
                bool last = stop.load(std::memory_order_relaxed);
                std::vector<Intrusive_ptr<Example>> x;
                {
                    std::lock_guard<std::mutex> l{m};
                    x.swap(given);
                }
                for (auto &e : x) used += example_rows(*e).size();
                if (last && x.empty()) break;
                std::this_thread::sleep_for(std::chrono::microseconds{50});
            }
        }};
    struct Join {
        std::atomic<bool> &stop;
        std::thread &a, &b;
        ~Join()
        {
            stop.store(true, std::memory_order_relaxed);
            if (a.joinable()) a.join();
            if (b.joinable()) b.join();
        }
    };
    std::string ops;
    {
        Join join{stop, poller, user};
        std::vector<Intrusive_ptr<Example>> kept;
        std::size_t steps = r.in(1, 20);
        for (std::size_t i = 0; i < steps; i++) {
            unsigned op = static_cast<unsigned>(r.below(11));
            ops += fmt::format("{} ", op);
            try {
                if (op < 5) {
                    auto ex = rd->read_example();
                    if (ex && use && r.chance(0.7)) {
                        std::lock_guard<std::mutex> l{m};
                        given.push_back(ex);
                    }
                    else if (ex) {
                        example_rows(*ex);
                        if (r.chance(0.3)) kept.push_back(ex);
                    }
                }
                else if (op == 5)
                    rd->peek_example();
                else if (op == 6)
                    rd->read_schema();
                else if (op == 7)
                    rd->reset();
                else if (op == 8)
                    c.count("bytes read", rd->num_bytes_read());
                else if (op == 9)
                    std::this_thread::sleep_for(std::chrono::microseconds{r.below(1500)});
                else {
                    rd->reset();
                    whole_epoch(c, d, *rd);
                    c.count("epochs compared");
                }
            }
            catch (const Violation &) {
                throw;
            }
            catch (const std::exception &) {
                c.count("exceptions");
            }
        }
        if (!poll && r.chance(0.7)) rd = nullptr;
    }
    rd = nullptr;
    c.count("examples used by another thread", used);
    c.describe(c.description() + " ops " + ops);
    c.observe("interleavings", order_hash.load(std::memory_order_relaxed));
}

void many_readers(Case &c)
{
    Rng &r = c.rng;
    Data d;
    make_data(c, d, false);
    Logging log{r};
    Noise n{r};
    std::size_t k = r.in(2, 4);
    std::vector<std::uint64_t> seeds;
    for (std::size_t i = 0; i < k; i++) seeds.push_back(r.next());
    // The readers are made by their own threads, or before.
    bool before = r.chance(0.5);
    std::vector<Intrusive_ptr<Data_reader>> rds(k);
    auto make = [&](std::size_t i) {
        Data_reader_params p = d.p;
        Rng x{seeds[i]};
        p.num_prefetched_examples = x.below(4);
        p.num_parallel_reads = x.below(4);
        rds[i] = d.ds.open(p);
    };
    if (before)
        for (std::size_t i = 0; i < k; i++) make(i);
    run_threads(k, [&](std::size_t i) {
        Rng x{seeds[i] ^ 77};
        if (!before) make(i);
        Case quiet{};
        std::size_t epochs = x.in(1, 2);
        for (std::size_t e = 0; e < epochs; e++) {
            if (e != 0) rds[i]->reset();
            if (x.chance(0.3)) {
                try {
                    rds[i]->read_example();
                }
                catch (const std::exception &) {
                }
                rds[i]->reset();
            }
            whole_epoch(quiet, d, *rds[i]);
        }
        if (x.chance(0.5)) rds[i] = nullptr;
    });
    c.count("readers in parallel", k);
    c.observe("interleavings", order_hash.load(std::memory_order_relaxed));
}

void shared_objects(Case &c)
{
    Rng &r = c.rng;
    Data d;
    make_data(c, d, false);
    Noise n{r};
    bool logging = r.chance(0.6);
    std::size_t k = r.in(2, 4);
    std::vector<std::uint64_t> seeds;
    for (std::size_t i = 0; i < k; i++) seeds.push_back(r.next());
    Intrusive_ptr<const Schema> schema;
    std::vector<Intrusive_ptr<Example>> examples;
    {
        auto rd = d.ds.open(d.p);
        try {
            schema = rd->read_schema();
            while (auto ex = rd->read_example()) examples.push_back(ex);
        }
        catch (const std::exception &) {
        }
    }
    static std::size_t serial = 0;
    std::string channel = fmt::format("{}/chan-{}", c.scratch, serial++);
    ::mkfifo((channel + "_0").c_str(), 0600);
    // A slice several threads cut pieces from, a store opened by all of them.
    Bytes content = d.ds.contents.empty() ? Bytes{"x"} : d.ds.contents[0];
    Memory_slice slice = make_slice(content);
    auto fresh = memory_store(content);
    std::string file = fmt::format("{}/shared-{}", c.scratch, serial);
    write_file(file, content);
    auto fresh_file = make_intrusive<File>(file, r.chance(0.5), Compression::none);
    auto fresh_list = make_intrusive<In_memory_store>(make_slice(content));
    std::atomic<std::size_t> opened{};
    std::string dump0 = examples.empty() ? "" : dump_example(*examples[0]);
    run_threads(k, [&](std::size_t i) {
        Rng x{seeds[i]};
        std::size_t steps = x.in(3, 25);
        for (std::size_t s = 0; s < steps; s++) {
            switch (x.below(9)) {
            case 0: {
                CHECK(!fresh->id().empty(), "id", "a memory store has no id");
                fresh->repr();
                fresh_list->id();
                fresh_file->id();
                break;
            }
            case 1: {
                auto &st = x.chance(0.5) ? fresh : d.stores[x.below(d.stores.size())];
                auto in = st->open_read();
                std::byte b[64];
                std::size_t total = 0;
                while (auto got = in->read(Mutable_memory_span{b, 64})) total += got;
                if (&st == &fresh) CHECK(total == content.size(), "bytes", "{} bytes", total);
                break;
            }
            case 2: {
                auto copy = examples;
                auto sch = schema;
                for (auto &e : copy) {
                    auto t = e->features()[0];
                    if (x.chance(0.3)) e = nullptr;
                }
                break;
            }
            case 3:
                if (!examples.empty()) CHECK(dump_example(*examples[0]) == dump0, "changed", "an example changed");
                if (schema)
                    for (auto &a : schema->attributes()) {
                        auto idx = schema->get_index(a.name());
                        CHECK(idx.has_value(), "index", "attribute {} has no index", a.name());
                    }
                break;
            case 4:
                if (!examples.empty()) {
                    auto &e = examples[x.below(examples.size())];
                    auto t = e->features()[x.below(e->features().size())];
                    if (auto *dt = dynamic_cast<Dense_tensor *>(t.get()); dt != nullptr && dt->data_type() != Data_type::string) {
                        auto *m = as_dlpack(*dt, DLPACK_VERSION);
                        t = nullptr;
                        m->deleter(m);
                    }
                }
                break;
            case 5: {
                Memory_slice a = slice;
                auto b = a.subslice(x.below(content.size() + 1));
                a = {};
                auto in = make_intrusive<Memory_input_stream>(std::move(b));
                in->read(x.below(50));
                break;
            }
            case 6:
                if (!logging) break;
                if (x.chance(0.5))
                    set_log_level(x.pick({Log_level::off, Log_level::warning, Log_level::info, Log_level::debug}));
                else
                    set_log_message_handler(x.chance(0.2) ? Log_message_handler{} : Log_message_handler{[s](Log_level l, std::string_view m) { log_sink(l, m.substr(0, s + 1)); }});
                break;
            case 7: {
                // Opening logs at the info level.
                auto in = fresh_file->open_read();
                break;
            }
            default:
                try {
                    auto in = make_sagemaker_pipe_input_stream(channel, std::chrono::seconds{0}, 0);
                    opened.fetch_add(1, std::memory_order_relaxed);
                }
                catch (const std::system_error &) {
                }
            }
        }
    });
    set_log_level(Log_level::off);
    set_log_message_handler({});
    ::unlink(file.c_str());
    ::unlink((channel + "_0").c_str());
    c.count("threads on shared objects", k);
}

}  // namespace

void run_case(Case &c)
{
    Tune tune;
    // Small batches are decoded in parallel.
    if (c.rng.chance(0.6)) Tune::cut_off(1);
    if (c.rng.chance(0.3)) Tune::chunk(c.rng.in(1, 200));
    std::uint64_t p0 = points.load(std::memory_order_relaxed), h0 = handed_over.load(std::memory_order_relaxed);
    unsigned d = static_cast<unsigned>(c.rng.below(100));
    if (d < 60)
        one_reader(c);
    else if (d < 80)
        many_readers(c);
    else
        shared_objects(c);
    c.count("pipeline points", points.load(std::memory_order_relaxed) - p0);
    c.count("tasks handed over", handed_over.load(std::memory_order_relaxed) - h0);
}
}  // namespace V
