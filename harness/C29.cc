#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C29";
const char *const rule =
    "Each case draws a reader over a dataset with known payload sizes (sometimes with bad rows), selections, prefetch settings and schedule perturbation, reads one to three epochs while a second thread "
    "polls num_bytes_read, and compares the counter with the payload sizes of the delivered instances (bounds during the epoch, equality at its end, zero after a reset). "
    "Non-trivial: at least three examples and a total that differs from zero. Distinct by configuration and dataset.";
std::uint64_t num_cases(bool thorough) { return thorough ? 50000 : 4200; }

// More bytes than 32 bits can count.
static void huge(Case &c)
{
    Rng &r = c.rng;
    std::string path = c.scratch + "/huge";
    std::size_t size = (std::size_t{600} << 20U) + r.below(1000), n = 8;
    c.describe(fmt::format("{} instances of {} bytes", n, size));
    if (!write_sparse_file(path, size, {})) {
        c.count("huge files not possible");
        return;
    }
    Dataset d;
    d.kind = Kind::image_file;
    d.img.image_dimensions = {1, 2, 3};
    Data_reader_params p;
    for (std::size_t i = 0; i < n; i++) p.dataset.push_back(make_intrusive<File>(path, true));
    p.batch_size = r.in(1, 4);
    p.num_prefetched_examples = 1;
    p.bad_example_handling = Bad_example_handling::pad;
    auto rd = d.open(p);
    std::size_t nr = 0, last = 0;
    while (auto e = rd->read_example()) {
        nr += batch_dim(*e);
        CHECK(rd->num_bytes_read() >= nr * size && rd->num_bytes_read() >= last, "too-small", "{} bytes are reported after {} have been delivered", rd->num_bytes_read(), nr * size);
        last = rd->num_bytes_read();
    }
    CHECK(nr == n && rd->num_bytes_read() == n * size, "total", "{} bytes are reported at the end of the data instead of {}", rd->num_bytes_read(), n * size);
    ::unlink(path.c_str());
    c.count("huge datasets");
    c.nontrivial = true;
}

void run_case(Case &c)
{
    Rng &r = c.rng;
    if (c.index == 0) return huge(c);
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(3) : r.in(1, 60);
    g.num_stores = r.in(1, 4);
    if (r.chance(0.3)) g.bad = 0.15;
    g.pad_len = r.chance(0.3) ? 200 : 0;
    Dataset d = make_dataset(r, g);
    if (d.kind == Kind::csv && g.bad > 0 && d.csv.column_types.empty()) d.csv.column_types = {{"f", Data_type::float64}};
    Data_reader_params p;
    p.batch_size = r.chance(0.3) ? 1 : r.in(1, 8);
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(5);
    p.last_example_handling = static_cast<Last_example_handling>(r.below(5));
    p.bad_example_handling = static_cast<Bad_example_handling>(r.in(1, 4));
    if (g.bad == 0) {
        if (r.chance(0.2)) p.num_instances_to_skip = r.below(g.num_rows + 1);
        if (r.chance(0.2)) p.num_instances_to_read = r.below(g.num_rows + 1);
    }
    if (r.chance(0.2)) {
        p.shuffle_instances = true;
        p.shuffle_window = 1;
    }
    bool drop = p.last_example_handling == Last_example_handling::drop || p.last_example_handling == Last_example_handling::drop_warn;
    bool skip = p.bad_example_handling == Bad_example_handling::skip || p.bad_example_handling == Bad_example_handling::skip_warn;
    auto rows = range_select(d.rows(), p);
    std::vector<std::size_t> model;    // payload sizes of the delivered examples
    std::size_t total = 0;
    for (std::size_t i = 0; i < rows.size(); i += p.batch_size) {
        std::size_t e = std::min(rows.size(), i + p.batch_size);
        if (e - i < p.batch_size && drop) break;
        std::size_t size = 0, bad = 0;
        for (std::size_t k = i; k < e; k++) {
            bad += rows[k].bad ? 1 : 0;
            size += rows[k].payload.size();
        }
        if (bad != 0 && skip) continue;
        model.push_back(size);
        total += size;
    }
    Tune t;
    if (r.chance(0.3)) Tune::cut_off(1);
    unsigned level = static_cast<unsigned>(r.below(4));
    std::size_t epochs = r.in(1, 3);
    bool poll = r.chance(0.5);
    c.describe(fmt::format("{} rows={} stores={} batch={} last={} bad={} total={} prefetch={} parallel={} perturb={} epochs={} poll={}", kind_name(g.kind), rows.size(), d.contents.size(), p.batch_size, static_cast<int>(p.last_example_handling), static_cast<int>(p.bad_example_handling), total, p.num_prefetched_examples, p.num_parallel_reads, level, epochs, poll));
    auto rd = d.open(p);
    Perturb pert{r.next(), level};
    CHECK(rd->num_bytes_read() == 0, "initial", "a new reader has read {} bytes", rd->num_bytes_read());
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) {
            rd->reset();
            CHECK(rd->num_bytes_read() == 0, "reset", "{} bytes are reported after a reset", rd->num_bytes_read());
            // An epoch that is broken off.
            if (r.chance(0.4)) {
                for (std::size_t k = r.below(4); k > 0 && rd->read_example(); k--) {}
                rd->reset();
                CHECK(rd->num_bytes_read() == 0, "reset", "{} bytes are reported after a reset in the middle of an epoch", rd->num_bytes_read());
            }
        }
        std::atomic_bool stop{false};
        std::atomic<std::uint64_t> polls{0};
        std::string failure;
        std::thread poller;
        if (poll)
            poller = std::thread{[&] {
                std::size_t last = 0;
                while (!stop) {
                    std::size_t n = rd->num_bytes_read();
                    polls++;
                    if (n < last) failure = fmt::format("the number of bytes went from {} to {}", last, n);
                    if (n > total) failure = fmt::format("{} bytes are reported, the total is {}", n, total);
                    last = n;
                    std::this_thread::sleep_for(std::chrono::microseconds(20));
                }
            }};
        std::string key, msg;
        try {
            std::size_t delivered = 0, nr = 0;
            if (r.chance(0.2)) rd->read_schema();
            while (true) {
                auto e = rd->read_example();
                if (e == nullptr) break;
                CHECK(nr < model.size(), "surplus", "example {} of {}", nr, model.size());
                delivered += model[nr++];
                std::size_t n = rd->num_bytes_read();
                CHECK(n >= delivered, "too-small", "{} bytes are reported after {} have been delivered", n, delivered);
                CHECK(n <= total, "too-large", "{} bytes are reported, the total is {}", n, total);
                if (r.chance(0.1)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(400)));
            }
            CHECK(nr == model.size(), "missing", "{} of {} examples", nr, model.size());
            CHECK(rd->num_bytes_read() == total, "total", "{} bytes are reported at the end of the data instead of {}", rd->num_bytes_read(), total);
            rd->read_example();
            CHECK(rd->num_bytes_read() == total, "total", "{} bytes are reported after the end of the data instead of {}", rd->num_bytes_read(), total);
        }
        catch (const Violation &v) {
            key = v.key;
            msg = v.msg;
        }
        stop = true;
        if (poller.joinable()) poller.join();
        if (!key.empty()) violate(key, "{}", msg);
        CHECK(failure.empty(), "polled", "{}", failure);
        c.count("polls", polls);
        c.count("bytes", total);
        c.count("epochs");
    }
    c.nontrivial = model.size() >= 3 && total != 0;
}
}  // namespace V
