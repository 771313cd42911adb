#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C11";
const char *const rule =
    "Each case draws a reader type, a dataset, a batch size (often around the number of rows and its divisors), a last-example mode, a bad-example mode without bad rows and optionally a range or "
    "shard, reads one or two epochs and compares the number, size, padding, tensor shapes and rows of the examples and the logged warnings with the model. "
    "Non-trivial: the last batch is partial. Distinct by configuration and dataset.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 5200; }

static void zero_batch(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.below(5);
    Dataset d = make_dataset(r, g);
    Data_reader_params p;
    p.batch_size = 0;
    p.last_example_handling = static_cast<Last_example_handling>(r.below(5));
    c.describe(fmt::format("batch size zero, {}", kind_name(g.kind)));
    bool thrown = false;
    try {
        d.open(p)->read_example();
    }
    catch (const std::exception &) {
        thrown = true;
    }
    CHECK(thrown, "zero-batch", "a batch size of zero is accepted");
    c.nontrivial = true;
}

void run_case(Case &c)
{
    Rng &r = c.rng;
    if (r.chance(0.01)) return zero_batch(c);
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(3) : r.in(1, 50);
    g.num_stores = r.in(1, 4);
    bool scale = r.chance(0.006);
    if (scale) {
        g.kind = r.pick({Kind::text, Kind::csv, Kind::proto});
        g.num_rows = r.in(300, 2600);
    }
    Dataset d = make_dataset(r, g);
    std::size_t n = d.size();
    Data_reader_params p;
    switch (r.below(6)) {
    case 0:
        p.batch_size = 1;
        break;
    case 1:
        p.batch_size = std::max<std::size_t>(n, 1);
        break;
    case 2:
        p.batch_size = n + r.in(1, 20);
        break;
    case 3:
        p.batch_size = std::max<std::size_t>(n / r.in(1, 4), 1);
        break;
    default:
        p.batch_size = scale ? r.in(200, n) : r.in(1, 17);
        break;
    }
    if (r.chance(0.1) && g.kind != Kind::text) p.batch_size = r.in(30, 400);
    // Larger than any memory; fine unless the batch has to be padded.
    bool giant = !scale && r.chance(0.015);
    if (giant) {
        p.batch_size = std::size_t{1} << r.in(32, 48);
        if (g.kind == Kind::text || g.kind == Kind::csv) p.batch_size = r.pick<std::size_t>({std::size_t{1} << 40U, std::size_t{1} << 61U, std::size_t{1} << 62U, ~std::size_t{0}});
    }
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(5);
    p.last_example_handling = static_cast<Last_example_handling>(r.below(giant ? 3 : 5));
    auto last = p.last_example_handling;
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    p.warn_bad_instances = r.chance(0.3);
    if (p.last_example_handling == Last_example_handling::none && r.chance(0.5)) p.last_example_handling = Data_reader_params{}.last_example_handling;
    if (r.chance(0.2)) p.num_instances_to_skip = r.below(n + 1);
    if (r.chance(0.2)) p.num_instances_to_read = r.below(n + 1);
    if (r.chance(0.15)) {
        p.num_shards = r.in(2, 4);
        p.shard_index = r.below(p.num_shards);
    }
    auto range = range_select(d.dumps(), p);
    std::vector<std::string> expected;
    for (std::size_t i = p.num_shards > 1 ? p.shard_index : 0; i < range.size(); i += p.num_shards > 1 ? p.num_shards : 1) expected.push_back(range[i]);
    Tune t;
    bool prl = r.chance(0.5);
    if (prl) Tune::cut_off(1);
    static const char *const modes[] = {"none", "drop", "drop_warn", "pad", "pad_warn"};
    std::size_t epochs = r.in(1, 2);
    c.describe(fmt::format("{} rows={} selected={} batch={} last={} bad={} parallel-decoding={} prefetch={} parallel={} epochs={}", kind_name(g.kind), n, expected.size(), p.batch_size, modes[static_cast<int>(last)], static_cast<int>(p.bad_example_handling), prl, p.num_prefetched_examples, p.num_parallel_reads, epochs));
    std::size_t b = p.batch_size, partial = expected.size() % b;
    bool drop = last == Last_example_handling::drop || last == Last_example_handling::drop_warn;
    bool pad = last == Last_example_handling::pad || last == Last_example_handling::pad_warn;
    bool warn = last == Last_example_handling::drop_warn || last == Last_example_handling::pad_warn;
    if (drop) expected.resize(expected.size() - partial);
    Log_capture log;
    auto rd = d.open(p);
    for (std::size_t e = 0; e < epochs; e++) {
        if (e != 0) rd->reset();
        log.take();
        std::size_t pos = 0, nr = 0;
        while (auto ex = rd->read_example()) {
            auto rows = example_rows(*ex);
            std::size_t left = expected.size() - pos;
            CHECK(left > 0, "surplus-example", "example {} comes after all {} rows", nr, expected.size());
            std::size_t want = std::min(b, left);
            CHECK(rows.size() == want, "example-size", "example {} has {} instances instead of {}", nr, rows.size(), want);
            std::size_t dim = want < b && pad ? b : want;
            CHECK(batch_dim(*ex) == dim, "batch-dimension", "example {} has the batch dimension {} instead of {}", nr, batch_dim(*ex), dim);
            CHECK(ex->padding == dim - want, "padding", "example {} has the padding {} instead of {}", nr, ex->padding, dim - want);
            for (std::size_t f = 0; f < ex->features().size(); f++) {
                auto &at = ex->schema().attributes()[f].shape();
                CHECK(!at.empty() && at[0] == b, "schema-batch", "the attribute {} does not have the batch size as its first dimension", f);
                auto &sh = ex->features()[f]->shape();
                CHECK(sh.size() == at.size() && sh[0] == dim && std::equal(sh.begin() + 1, sh.end(), at.begin() + 1), "tensor-shape", "feature {} of example {} has an unexpected shape", f, nr);
            }
            for (auto &x : rows) {
                CHECK(x == expected[pos], "rows", "row {} is {} instead of {}", pos, x, expected[pos]);
                pos++;
            }
            nr++;
        }
        CHECK(pos == expected.size(), "missing", "the examples have {} of {} rows", pos, expected.size());
        auto msgs = log.take();
        std::size_t want = warn && partial != 0 ? 1 : 0;
        CHECK(msgs.size() == want, "warnings", "{} warnings instead of {}: {}", msgs.size(), want, msgs.empty() ? "" : msgs[0]);
        c.count("examples", nr);
        c.count(fmt::format("last batches ({}{})", partial == 0 ? "full, " : "partial, ", modes[static_cast<int>(last)]));
    }
    c.nontrivial = partial != 0;
}
}  // namespace V
