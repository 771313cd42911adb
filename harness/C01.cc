#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C01";
const char *const rule =
    "Each case draws a reader type, a dataset with known rows spread over stores, a batch size, prefetch and parallelism settings, a store kind "
    "with delays, and a schedule perturbation (delays at the pipeline points and in the consumer); the delivered rows are compared with the known rows. "
    "Non-trivial: at least three examples passed through the pipeline. Distinct by configuration and dataset.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 5600; }
void run_case(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(3) : r.chance(0.9) ? r.in(1, 60) : r.in(60, 300);
    g.num_stores = r.in(1, 6);
    bool scale = r.chance(0.006);
    if (scale) {
        g.kind = r.pick({Kind::text, Kind::csv, Kind::proto});
        g.num_rows = r.in(300, 2600);
        if (r.chance(0.5)) g.num_stores = r.in(7, 90);
    }
    Dataset d = make_dataset(r, g);
    Data_reader_params p;
    p.batch_size = r.chance(0.3) ? 1 : r.in(1, 9);
    p.num_prefetched_examples = r.below(7);
    if (scale && r.chance(0.6)) p.batch_size = r.in(200, g.num_rows);
    if (scale && r.chance(0.5)) p.num_prefetched_examples = r.in(20, 120);
    p.num_parallel_reads = r.below(9);
    if (r.chance(0.015)) p.num_prefetched_examples = r.pick<std::size_t>({std::size_t{1} << 31U, std::size_t{1} << 32U, std::size_t{1} << 63U, ~std::size_t{0}});
    if (r.chance(0.015)) p.num_parallel_reads = r.pick<std::size_t>({std::size_t{1} << 31U, std::size_t{1} << 32U, std::size_t{1} << 63U, ~std::size_t{0}});
    if (r.chance(0.2)) p.num_shards = 1;
    if (r.chance(0.1)) p.shuffle_window = 1, p.shuffle_instances = true;
    bool doubles = r.chance(0.5);
    unsigned level = static_cast<unsigned>(r.below(4));
    unsigned consumer = r.chance(0.5) ? 0 : static_cast<unsigned>(r.in(1, 600));
    Tune t;
    if (r.chance(0.3)) Tune::cut_off(1);
    std::string tune = r.chance(0.4) ? Tune::randomize(r) : "";
    if (doubles)
        for (std::size_t s = 0; s < d.contents.size(); s++) {
            auto plan = make_plan(d.contents[s], fmt::format("store-{}", s));
            plan->seed = r.next();
            plan->max_read = r.chance(0.5) ? 0 : r.in(1, 50);
            plan->random_reads = r.chance(0.5);
            plan->delay_us = r.chance(0.7) ? 0 : 300;
            plan->seekable = r.chance(0.3);
            p.dataset.push_back(make_store(plan));
        }
    c.describe(fmt::format("{} rows={} stores={} batch={} prefetch={} parallel={} doubles={} perturb={} consumer_us={} {}", kind_name(g.kind), d.size(), d.contents.size(), p.batch_size, p.num_prefetched_examples, p.num_parallel_reads, doubles, level, consumer, tune));
    auto expected = d.dumps();
    auto rd = d.open(p);
    Perturb pert{r.next(), level};
    std::vector<std::string> got;
    std::size_t examples = 0;
    while (auto e = rd->read_example()) {
        auto rows = example_rows(*e);
        CHECK(e->padding == 0, "padding", "an example has padding {}", e->padding);
        std::size_t want = std::min(p.batch_size, expected.size() - std::min(expected.size(), examples * p.batch_size));
        CHECK(rows.size() == want, "example-size", "example {} has {} rows instead of {}", examples, rows.size(), want);
        for (auto &x : rows) got.push_back(std::move(x));
        examples++;
        CHECK(got.size() <= expected.size(), "duplicate", "{}", first_difference(expected, got));
        if (consumer != 0 && r.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(consumer)));
    }
    auto diff = first_difference(expected, got);
    CHECK(diff.empty(), "rows", "{}", diff);
    for (int i = 0; i < 3; i++) {
        if (r.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
        CHECK(rd->read_example() == nullptr, "read-after-end", "a read after the end of the data returned an example");
    }
    if (r.chance(0.2)) CHECK(rd->peek_example() == nullptr, "read-after-end", "a peek after the end of the data returned an example");
    c.count("examples", examples);
    c.count("rows", got.size());
    c.count("pipeline points", Perturb::num_points());
    c.observe("interleavings", Perturb::interleaving());
    c.nontrivial = examples >= 3;
}
}  // namespace V
