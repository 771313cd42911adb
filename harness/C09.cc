#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C09";
const char *const rule =
    "Each case draws a dataset with known rows, a skip/limit range, a split into shards, a sampling ratio and a batch size, reads every shard for one to three epochs "
    "and compares the delivered rows with the model (exact range and shards; order, subset, size and epoch equality of samples). "
    "Non-trivial: the range cuts off something, there are at least two shards, or a sample was drawn. Distinct by configuration and dataset.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 4500; }

static std::vector<std::string> shard_of(const std::vector<std::string> &v, std::size_t idx, std::size_t n)
{
    std::vector<std::string> r;
    for (std::size_t i = idx; i < v.size(); i += n) r.push_back(v[i]);
    return r;
}

static std::size_t boundary(Rng &r, std::size_t n)
{
    switch (r.below(6)) {
    case 0:
        return 0;
    case 1:
        return 1;
    case 2:
        return n;
    case 3:
        return n == 0 ? 0 : n - 1;
    case 4:
        return n + r.below(3);
    default:
        return r.below(n + 1);
    }
}

static void check_sample(const std::vector<std::string> &from, const std::vector<std::string> &got, double ratio)
{
    // All rows are distinct, so the sample must be a subsequence.
    std::size_t k = 0;
    for (auto &x : got) {
        while (k < from.size() && from[k] != x) k++;
        CHECK(k < from.size(), "sample-subset", "a sampled row is not in the selection or out of order: {}", x);
        k++;
    }
    double want = ratio * static_cast<double>(from.size());
    // Leave room for the rounding of single-precision ratios.
    double tol = 1 + 1e-5 * static_cast<double>(from.size()) + 1e-3;
    CHECK(std::abs(static_cast<double>(got.size()) - want) <= tol, "sample-size", "the sample has {} of {} rows, the ratio is {}", got.size(), from.size(), ratio);
}

static void invalid(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.in(1, 5);
    Dataset d = make_dataset(r, g);
    Data_reader_params p;
    p.batch_size = 1;
    int what = static_cast<int>(r.below(4));
    switch (what) {
    case 0:
        p.num_shards = r.in(2, 5);
        p.shard_index = p.num_shards + r.below(3);
        break;
    case 1:
        p.sample_ratio = r.pick({0.0F, -0.5F, -0.0F});
        break;
    case 2:
        p.sample_ratio = r.pick({1.0F, 1.5F, 100.0F});
        break;
    default:
        p.num_shards = r.in(2, 5);
        p.shard_index = ~std::size_t{} - r.below(2);
        break;
    }
    c.describe(fmt::format("invalid {} shards={} index={} ratio={}", what, p.num_shards, p.shard_index, p.sample_ratio.value_or(-99)));
    bool thrown = false;
    try {
        auto rd = d.open(p);
        rd->read_example();
    }
    catch (const std::exception &) {
        thrown = true;
    }
    CHECK(thrown, "invalid-accepted", "invalid settings are accepted");
    c.count("rejected settings");
}

void run_case(Case &c)
{
    Rng &r = c.rng;
    if (r.chance(0.04)) return invalid(c);
    Gen g;
    g.kind = r.chance(0.5) ? Kind::text : r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(3) : r.chance(0.75) ? r.in(1, 40) : r.in(60, 450);
    if (g.kind != Kind::text && g.num_rows > 150) g.num_rows = 150;
    g.num_stores = r.in(1, 6);
    bool large = g.kind == Kind::text && r.chance(0.04);
    if (large) g.num_rows = r.in(500, 4000);
    Dataset d = make_dataset(r, g);
    std::size_t n = d.size();
    Data_reader_params p;
    p.batch_size = r.chance(0.4) ? 1 : r.in(1, 12);
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(5);
    if (r.chance(0.6)) p.num_instances_to_skip = boundary(r, n);
    if (r.chance(0.6)) p.num_instances_to_read = boundary(r, r.chance(0.5) ? n : n - std::min(n, p.num_instances_to_skip));
    if (r.chance(0.05)) p.num_instances_to_read = ~std::size_t{};
    if (r.chance(0.03)) p.num_instances_to_skip = ~std::size_t{};
    std::size_t shards = r.chance(0.35) ? 0 : r.chance(0.1) ? 1 : r.in(2, r.chance(0.2) ? 30 : 6);
    if (large && r.chance(0.7))
        p.sample_ratio = static_cast<float>(r.in(1, 300)) / 10000.0F;
    else if (r.chance(0.35))
        p.sample_ratio = static_cast<float>(r.chance(0.3) ? r.pick({0.01, 0.5, 0.25, 0.99, 0.001, 0.999}) : static_cast<double>(r.in(1, 999)) / 1000.0);
    bool shuffle = r.chance(0.1);
    if (shuffle) {
        p.shuffle_instances = true;
        p.shuffle_window = r.below(20);
    }
    std::size_t epochs = r.chance(0.4) ? r.in(2, 3) : 1;
    c.describe(fmt::format("{} rows={} stores={} batch={} skip={} read={} shards={} ratio={} shuffle={} epochs={} prefetch={} parallel={}", kind_name(g.kind), n, d.contents.size(), p.batch_size, p.num_instances_to_skip, p.num_instances_to_read ? fmt::format("{}", *p.num_instances_to_read) : "-", shards, p.sample_ratio.value_or(-1), shuffle ? fmt::format("{}", p.shuffle_window) : "-", epochs, p.num_prefetched_examples, p.num_parallel_reads));
    auto range = range_select(d.dumps(), p);
    for (std::size_t s = 0; s < std::max<std::size_t>(shards, 1); s++) {
        p.num_shards = shards;
        p.shard_index = s;
        auto expected = shards > 1 ? shard_of(range, s, shards) : range;
        auto rd = d.open(p);
        std::vector<std::string> first;
        for (std::size_t e = 0; e < epochs; e++) {
            if (e != 0) {
                rd->reset();
                // An epoch that is broken off.
                if (r.chance(0.3)) {
                    for (std::size_t k = r.below(4); k > 0 && rd->read_example(); k--) {}
                    rd->reset();
                }
            }
            if (r.chance(0.1)) rd->read_schema();
            if (r.chance(0.1)) rd->peek_example();
            auto res = read_all(*rd);
            CHECK(res.error.empty(), "exception", "{}: {}", res.error, res.error_text);
            if (shuffle) {
                // Only the set is specified here.
                auto sorted = expected;
                if (!p.sample_ratio) {
                    std::sort(sorted.begin(), sorted.end());
                    std::sort(res.rows.begin(), res.rows.end());
                    auto diff = first_difference(sorted, res.rows);
                    CHECK(diff.empty(), "shuffled-selection", "shard {} epoch {}: {}", s, e, diff);
                }
                else {
                    std::map<std::string, std::size_t> pos;
                    for (std::size_t i = 0; i < expected.size(); i++) pos[expected[i]] = i;
                    std::vector<std::string> back(expected.size());
                    for (auto &x : res.rows) {
                        CHECK(pos.count(x) != 0, "sample-subset", "row {} is not in the selection or comes twice", x);
                        back[pos[x]] = x;
                        pos.erase(x);
                    }
                    std::vector<std::string> sel;
                    for (auto &x : back)
                        if (!x.empty()) sel.push_back(x);
                    check_sample(expected, sel, *p.sample_ratio);
                    if (e == 0) first = sel;
                    CHECK(sel == first, "sample-epoch", "the sample differs in epoch {}: {}", e, first_difference(first, sel));
                }
            }
            else if (p.sample_ratio) {
                check_sample(expected, res.rows, *p.sample_ratio);
                if (e == 0) first = res.rows;
                CHECK(res.rows == first, "sample-epoch", "the sample differs in epoch {}: {}", e, first_difference(first, res.rows));
                c.count("sampled rows", res.rows.size());
            }
            else {
                auto diff = first_difference(expected, res.rows);
                CHECK(diff.empty(), shards > 1 ? "shard" : "range", "shard {} of {}, epoch {}: {}", s, shards, e, diff);
            }
            c.count("epochs");
            c.count("rows", res.rows.size());
        }
    }
    c.nontrivial = range.size() != n || shards >= 2 || p.sample_ratio.has_value();
}
}  // namespace V
