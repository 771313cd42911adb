#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C12";
const char *const rule =
    "Each case draws a reader type, a dataset with bad rows of several kinds (never the first one), a batch size, a bad-example and a last-example mode, and serial or parallel decoding, reads it "
    "and compares examples, padding, the exception and the logged warnings with the model. Non-trivial: at least one row is bad. Distinct by configuration and dataset.";
std::uint64_t num_cases(bool thorough) { return thorough ? 80000 : 6500; }

void run_case(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick({Kind::csv, Kind::csv, Kind::proto, Kind::proto, Kind::image_rec, Kind::image_file});
    g.num_rows = r.chance(0.2) ? r.in(1, 4) : r.in(4, 40);
    g.num_stores = r.in(1, 4);
    g.bad = r.chance(0.3) ? 0.6 : r.chance(0.1) ? 1.0 : 0.15;
    g.sparse = r.chance(0.6);
    bool scale = r.chance(0.006);
    if (scale) {
        g.kind = r.pick({Kind::csv, Kind::proto});
        g.num_rows = r.in(200, 2300);
        g.sparse = true;
    }
    Dataset d = make_dataset(r, g);
    // The rows must not be inferred as strings.
    if (d.kind == Kind::csv && d.csv.column_types.empty()) d.csv.column_types = {{"f", Data_type::float64}};
    auto rows = d.rows();
    std::size_t n = rows.size();
    Data_reader_params p;
    p.batch_size = r.chance(0.2) ? 1 : r.chance(0.1) ? n + r.below(3) : r.in(1, 9);
    if (scale && r.chance(0.8)) p.batch_size = r.in(100, n);
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(5);
    p.last_example_handling = static_cast<Last_example_handling>(r.below(5));
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    auto asked = p.bad_example_handling;
    p.warn_bad_instances = r.chance(0.3);
    // The error mode is the default.
    if (p.bad_example_handling == Bad_example_handling::error && r.chance(0.5)) p.bad_example_handling = Data_reader_params{}.bad_example_handling;
    Tune t;
    bool prl = r.chance(0.5);
    if (prl) Tune::cut_off(1);
    auto last = p.last_example_handling;
    auto bad = asked;
    static const char *const lmodes[] = {"none", "drop", "drop_warn", "pad", "pad_warn"};
    static const char *const bmodes[] = {"error", "skip", "skip_warn", "pad", "pad_warn"};
    std::string pattern;
    for (auto &x : rows) pattern += x.bad ? 'B' : '.';
    c.describe(fmt::format("{} {} batch={} last={} bad={} parallel-decoding={} warn={} prefetch={} parallel={} sparse={}", kind_name(g.kind), pattern, p.batch_size, lmodes[static_cast<int>(last)], bmodes[static_cast<int>(bad)], prl, p.warn_bad_instances, p.num_prefetched_examples, p.num_parallel_reads, g.sparse));
    bool drop = last == Last_example_handling::drop || last == Last_example_handling::drop_warn;
    bool lpad = last == Last_example_handling::pad || last == Last_example_handling::pad_warn;
    bool skip = bad == Bad_example_handling::skip || bad == Bad_example_handling::skip_warn;
    bool warn = bad == Bad_example_handling::skip_warn || bad == Bad_example_handling::pad_warn;

    // The model
    struct Want {
        std::vector<std::string> rows;
        std::size_t dim;
        std::size_t bad;
    };
    std::vector<Want> want;
    std::size_t affected = 0, bad_total = 0, min_warn = 0;
    bool error = false;
    for (std::size_t i = 0; i < n; i += p.batch_size) {
        std::size_t e = std::min(n, i + p.batch_size);
        if (e - i < p.batch_size && drop) break;
        Want w{{}, e - i < p.batch_size && lpad ? p.batch_size : e - i, 0};
        for (std::size_t k = i; k < e; k++)
            if (rows[k].bad)
                w.bad++;
            else
                w.rows.push_back(rows[k].dump);
        bad_total += w.bad;
        if (w.bad != 0) {
            affected++;
            min_warn += skip ? 1 : w.bad;
            if (bad == Bad_example_handling::error) {
                error = true;
                break;
            }
            if (skip) continue;
        }
        want.push_back(std::move(w));
    }
    std::size_t last_warn = (last == Last_example_handling::drop_warn || last == Last_example_handling::pad_warn) && n % p.batch_size != 0 ? 1 : 0;

    Log_capture log;
    auto rd = d.open(p);
    std::size_t epochs = r.in(1, 2);
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) rd->reset();
        log.take();
        std::size_t nr = 0;
        std::string failure;
        while (true) {
            Intrusive_ptr<Example> ex;
            try {
                ex = rd->read_example();
            }
            catch (const std::exception &e) {
                failure = exc_type(e) + ": " + e.what();
                break;
            }
            if (ex == nullptr) break;
            auto got = example_rows(*ex);
            CHECK(nr < want.size(), "surplus-example", "example {} is delivered although only {} are expected; first row {}", nr, want.size(), got.empty() ? "-" : got[0]);
            auto &w = want[nr];
            CHECK(batch_dim(*ex) == w.dim, "batch-dimension", "example {} has the batch dimension {} instead of {}", nr, batch_dim(*ex), w.dim);
            auto diff = first_difference(w.rows, got);
            CHECK(diff.empty(), "rows", "example {}: {}", nr, diff);
            CHECK(ex->padding == w.dim - w.rows.size(), "padding", "example {} has the padding {}", nr, ex->padding);
            nr++;
        }
        if (error) {
            CHECK(!failure.empty(), "error-missing", "no exception although the example {} has a bad instance", want.size());
            // The error is kept until the reader is reset.
            bool again = false;
            try {
                rd->read_example();
            }
            catch (const std::exception &) {
                again = true;
            }
            CHECK(again, "error-forgotten", "a read after the error does not raise an exception");
        }
        else {
            CHECK(failure.empty(), "exception", "{}", failure);
            CHECK(nr == want.size(), "missing-example", "{} of {} examples are delivered", nr, want.size());
            auto msgs = log.take();
            std::size_t lo = last_warn + (warn ? affected : 0), hi = lo;
            if (p.warn_bad_instances) {
                lo += min_warn;
                hi += bad_total;
            }
            CHECK(msgs.size() >= lo && msgs.size() <= hi, "warnings", "{} warnings are logged instead of {} to {}: {}", msgs.size(), lo, hi, msgs.empty() ? "" : msgs[0]);
            c.count("warnings", msgs.size());
        }
        c.count("examples", nr);
        c.count(fmt::format("bad rows ({}, {})", kind_name(g.kind), bmodes[static_cast<int>(bad)]), bad_total);
    }
    c.nontrivial = bad_total != 0;
}
}  // namespace V
