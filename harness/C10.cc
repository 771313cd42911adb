#include <thread>
#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C10";
const char *const rule =
    "Each case draws a dataset, a window, a seed, the reshuffling mode and an optional range or shard, and reads several epochs (some broken off) with one or two readers; the "
    "delivered order is checked to be a permutation within the window bound, equal or different across epochs and readers as specified. A part of the cases reads one dataset with many "
    "seeds and checks that each eligible row is delivered first for some seed and that every pair within the window can swap. "
    "Non-trivial: the window is not one and at least four rows are shuffled. Distinct by configuration and dataset.";
std::uint64_t num_cases(bool thorough) { return thorough ? 40000 : 3200; }

static std::vector<std::size_t> order_of(const std::vector<std::string> &expected, const std::vector<std::string> &got)
{
    std::map<std::string, std::size_t> pos;
    for (std::size_t i = 0; i < expected.size(); i++) pos[expected[i]] = i;
    std::vector<std::size_t> r;
    for (auto &x : got) {
        auto it = pos.find(x);
        CHECK(it != pos.end(), "permutation", "row {} is delivered twice or unknown ({} of {} rows)", x, got.size(), expected.size());
        r.push_back(it->second);
        pos.erase(it);
    }
    CHECK(pos.empty(), "permutation", "{} rows are missing, the first one is {}", pos.size(), pos.begin()->first);
    return r;
}

static void check_window(const std::vector<std::size_t> &o, std::size_t w)
{
    if (w == 0) return;
    for (std::size_t k = 0; k < o.size(); k++) CHECK(o[k] <= k || o[k] - k <= w - 1, "window", "the delivery {} is the row {} although the window is {}", k, o[k], w);
}

// Which rows come first for many seeds, and which pairs are swapped.
static void distribution(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = Kind::text;
    g.num_rows = r.in(5, 14);
    Dataset d = make_dataset(r, g);
    auto expected = d.dumps();
    std::size_t n = expected.size();
    Data_reader_params p;
    p.batch_size = n;
    p.num_prefetched_examples = 1;
    p.shuffle_instances = true;
    p.shuffle_window = r.chance(0.4) ? 0 : r.in(2, 7);
    p.reshuffle_each_epoch = true;
    if (r.chance(0.7)) p.shuffle_seed = r.next();
    c.describe(fmt::format("distribution rows={} window={} seeded={}", n, p.shuffle_window, p.shuffle_seed.has_value()));
    std::size_t w = p.shuffle_window == 0 ? n : std::min(p.shuffle_window, n);
    std::set<std::size_t> first, last;
    std::set<std::pair<std::size_t, std::size_t>> swapped;
    auto rd = d.open(p);
    std::size_t draws = 30 * w;
    for (std::size_t i = 0; i < draws; i++) {
        if (i != 0) rd->reset();
        auto o = order_of(expected, read_all(*rd).rows);
        check_window(o, p.shuffle_window);
        first.insert(o[0]);
        last.insert(o[n - 1]);
        for (std::size_t a = 0; a < n; a++)
            for (std::size_t b = a + 1; b < n; b++)
                if (o[a] > o[b]) swapped.emplace(o[b], o[a]);
        c.observe("orders", hash_str(fmt::format("{}", fmt::join(o, ","))));
    }
    // The probability that an eligible row never comes first is below 1e-12.
    CHECK(first.size() == w, "first-rows", "only {} of {} rows ever come first in {} epochs", first.size(), w, draws);
    CHECK(last.size() >= 2, "last-rows", "the last row is always {}", *last.begin());
    for (std::size_t a = 0; a + 1 < n; a++) CHECK(swapped.count({a, a + 1}) != 0, "never-swapped", "the rows {} and {} are never swapped in {} epochs with the window {}", a, a + 1, draws, p.shuffle_window);
    c.count("epochs", draws);
}

void run_case(Case &c)
{
    Rng &r = c.rng;
    if (r.chance(0.03)) return distribution(c);
    bool scale = r.chance(0.012);
    Gen g;
    g.kind = r.chance(0.6) ? Kind::text : r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(4) : r.chance(0.8) ? r.in(4, 60) : r.in(60, 300);
    g.num_stores = r.in(1, 5);
    if (scale) {
        g.kind = r.pick({Kind::text, Kind::csv});
        g.num_rows = r.in(600, 2500);
    }
    Dataset d = make_dataset(r, g);
    std::size_t n = d.size();
    Data_reader_params p;
    p.batch_size = r.chance(0.4) ? 1 : r.in(1, 12);
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(5);
    p.shuffle_instances = true;
    switch (r.below(6)) {
    case 0:
        p.shuffle_window = 0;
        break;
    case 1:
        p.shuffle_window = r.in(1, 2);
        break;
    case 2:
        p.shuffle_window = std::max<std::size_t>(n, 1) + r.below(3) - (n > 1 ? 1 : 0);
        break;
    default:
        p.shuffle_window = r.in(1, n + 10);
        break;
    }
    if (scale) {
        p.batch_size = r.in(20, 90);
        p.shuffle_window = r.chance(0.2) ? 0 : r.in(100, n);
    }
    else if (r.chance(0.03))
        p.shuffle_window = r.pick<std::size_t>({std::size_t{1} << 40U, std::size_t{1} << 62U, std::size_t{1} << 63U, ~std::size_t{0}});
    if (r.chance(0.85)) p.shuffle_seed = r.chance(0.5) ? r.next() : r.below(3);
    // It is on if nothing else is said.
    bool reshuffle = r.chance(0.5), unsaid = r.chance(0.5);
    if (!reshuffle || !unsaid) p.reshuffle_each_epoch = reshuffle;
    if (r.chance(0.2)) p.num_instances_to_skip = r.below(n + 1);
    if (r.chance(0.2)) p.num_instances_to_read = r.below(n + 1);
    if (r.chance(0.2)) {
        p.num_shards = r.in(2, 4);
        p.shard_index = r.below(p.num_shards);
    }
    auto range = range_select(d.dumps(), p);
    std::vector<std::string> expected;
    for (std::size_t i = p.num_shards > 1 ? p.shard_index : 0; i < range.size(); i += p.num_shards > 1 ? p.num_shards : 1) expected.push_back(range[i]);
    std::size_t epochs = r.in(1, 4);
    c.describe(fmt::format("{} rows={} window={} seed={} reshuffle={} skip={} read={} shard={}/{} batch={} epochs={}", kind_name(g.kind), n, p.shuffle_window, p.shuffle_seed ? fmt::format("{}", *p.shuffle_seed) : "-", reshuffle, p.num_instances_to_skip, p.num_instances_to_read ? fmt::format("{}", *p.num_instances_to_read) : "-", p.shard_index, p.num_shards, p.batch_size, epochs));
    std::size_t w = p.shuffle_window;
    bool shuffles = w != 1 && expected.size() >= 2;
    std::vector<std::vector<std::size_t>> seen;
    auto rd = d.open(p);
    for (std::size_t e = 0; e < epochs; e++) {
        if (e != 0) rd->reset();
        // Peeking and reading the schema must not change the order.
        if (r.chance(0.2)) rd->read_schema();
        if (r.chance(0.2)) rd->peek_example();
        auto res = read_all(*rd);
        CHECK(res.error.empty(), "exception", "{}: {}", res.error, res.error_text);
        auto o = order_of(expected, res.rows);
        check_window(o, w);
        if (w == 1) CHECK(std::is_sorted(o.begin(), o.end()), "window-one", "a window of one changes the order");
        seen.push_back(o);
        c.observe("orders", hash_str(fmt::format("{}", fmt::join(o, ","))));
    }
    if (shuffles && expected.size() >= 300 && (w == 0 || w >= 60)) {
        // Rows from the far half of the window come forward within the first rows; the
        // probability that none of a hundred or more does is below 1e-30.
        std::size_t far = 0, eff = w == 0 ? expected.size() : std::min(w, expected.size());
        for (std::size_t k = 0; k < seen[0].size(); k++) far = std::max(far, seen[0][k] - std::min(seen[0][k], k));
        std::size_t half = expected.size() >= 2 * eff ? eff / 2 : eff / 4;
        CHECK(far >= half, "near", "no row comes forward by more than {} although the window is {} of {} rows", far, w, expected.size());
        c.count("large windows");
    }
    bool large = shuffles && expected.size() >= 25 && (w == 0 || w >= 10);
    for (std::size_t e = 1; e < epochs; e++) {
        if (!reshuffle) CHECK(seen[e] == seen[0], "epochs-differ", "epoch {} has another order although reshuffle_each_epoch is off", e);
        // Equal orders have a probability below 1e-14 then.
        else if (large)
            for (std::size_t k = 0; k < e; k++) CHECK(seen[e] != seen[k], "epochs-equal", "the epochs {} and {} have the same order although reshuffle_each_epoch is on", k, e);
    }
    if (large) CHECK(!std::is_sorted(seen[0].begin(), seen[0].end()), "not-shuffled", "{} rows are delivered in their original order", expected.size());
    if (p.shuffle_seed) {
        // The seed decides the order, not the other parameters.
        auto q = p;
        q.batch_size = r.in(1, 9);
        q.num_prefetched_examples = r.in(1, 4);
        auto r2 = d.open(q);
        for (std::size_t e = 0; e < epochs; e++) {
            if (e != 0) r2->reset();
            auto o = order_of(expected, read_all(*r2).rows);
            CHECK(o == seen[e], "seed", "a second reader with the same seed has another order in epoch {}", e);
        }
        if (large) {
            q.shuffle_seed = *p.shuffle_seed ^ (std::uint64_t{1} << r.below(64));
            auto r3 = d.open(q);
            auto o = order_of(expected, read_all(*r3).rows);
            CHECK(o != seen[0], "other-seed", "two seeds give the same order");
        }
    }
    // An epoch that is broken off leaves nothing behind for the next one.
    std::size_t breaks = r.chance(0.4) ? r.in(1, 3) : 0;
    for (std::size_t b = 0; b < breaks; b++) {
        rd->reset();
        std::size_t k = r.below(expected.size() / p.batch_size + 2);
        for (std::size_t i = 0; i < k && rd->read_example() != nullptr; i++) {}
        if (r.chance(0.3)) rd->peek_example();
        if (r.chance(0.3)) std::this_thread::sleep_for(std::chrono::milliseconds{1});
    }
    if (breaks != 0) {
        rd->reset();
        auto res = read_all(*rd);
        CHECK(res.error.empty(), "exception", "{}: {}", res.error, res.error_text);
        auto o = order_of(expected, res.rows);
        check_window(o, w);
        if (!reshuffle) CHECK(o == seen[0], "epochs-differ", "the order after an epoch that was broken off differs although reshuffle_each_epoch is off");
        c.count("epochs after broken-off ones");
    }
    c.count("epochs", epochs);
    c.count("rows", expected.size() * epochs);
    c.nontrivial = w != 1 && expected.size() >= 4;
}
}  // namespace V
