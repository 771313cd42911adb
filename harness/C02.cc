#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C02";
const char *const rule =
    "Each case draws a reader over a dataset with known rows (sometimes with bad rows or shuffling) and a random history of read, peek, schema, byte count and reset calls with pauses and schedule "
    "perturbation, and compares every result with a sequential model. Non-trivial: the history has a reset in the middle of an epoch or a peek. Distinct by history and configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 4200; }

static std::string sorted_schema(const Schema *s)
{
    if (s == nullptr) return "(none)";
    std::vector<std::string> v;
    for (auto &a : s->attributes()) v.push_back(dump_attr(a));
    std::sort(v.begin(), v.end());
    return fmt::format("{}", fmt::join(v, ";"));
}

void run_case(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(3) : r.in(1, 40);
    g.num_stores = r.in(1, 4);
    if (r.chance(0.2)) g.bad = 0.15;
    Dataset d = make_dataset(r, g);
    if (d.kind == Kind::csv && g.bad > 0 && d.csv.column_types.empty()) d.csv.column_types = {{"f", Data_type::float64}};
    auto rows = d.rows();
    Data_reader_params p;
    p.batch_size = r.chance(0.3) ? 1 : r.in(1, 8);
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(5);
    p.last_example_handling = static_cast<Last_example_handling>(r.below(5));
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    bool shuffle = g.bad == 0 && r.chance(0.3);
    bool fixed = false;
    if (shuffle) {
        p.shuffle_instances = true;
        p.shuffle_window = r.chance(0.3) ? 0 : r.in(1, 12);
        p.reshuffle_each_epoch = r.chance(0.4);
        if (r.chance(0.8)) p.shuffle_seed = r.next();
        fixed = !p.reshuffle_each_epoch;
    }
    bool drop = p.last_example_handling == Last_example_handling::drop || p.last_example_handling == Last_example_handling::drop_warn;
    bool lpad = p.last_example_handling == Last_example_handling::pad || p.last_example_handling == Last_example_handling::pad_warn;
    bool skip = p.bad_example_handling == Bad_example_handling::skip || p.bad_example_handling == Bad_example_handling::skip_warn;

    // The model: the sequence of examples and whether it ends with an error.
    struct Ex {
        std::vector<std::string> rows;
        std::size_t dim;
    };
    std::vector<Ex> model;
    bool error = false;
    for (std::size_t i = 0; i < rows.size() && !error; i += p.batch_size) {
        std::size_t e = std::min(rows.size(), i + p.batch_size);
        if (e - i < p.batch_size && drop) break;
        Ex x{{}, e - i < p.batch_size && lpad ? p.batch_size : e - i};
        std::size_t bad = 0;
        for (std::size_t k = i; k < e; k++)
            if (rows[k].bad)
                bad++;
            else
                x.rows.push_back(rows[k].dump);
        if (bad != 0 && p.bad_example_handling == Bad_example_handling::error)
            error = true;
        else if (bad == 0 || !skip)
            model.push_back(std::move(x));
    }
    std::set<std::string> all;
    for (auto &x : d.dumps()) all.insert(x);

    Tune t;
    if (r.chance(0.3)) Tune::cut_off(1);
    bool doubles = r.chance(0.3);
    if (doubles)
        for (std::size_t s = 0; s < d.contents.size(); s++) {
            auto plan = make_plan(d.contents[s], fmt::format("store-{}", s));
            plan->seed = r.next();
            plan->max_read = r.in(1, 50);
            plan->random_reads = true;
            plan->delay_us = r.chance(0.5) ? 0 : 300;
            p.dataset.push_back(make_store(plan));
        }
    unsigned level = static_cast<unsigned>(r.below(4));
    std::size_t num_ops = r.in(5, 60);
    std::string ops;
    double w_reset = r.chance(0.3) ? 0.02 : 0.1, w_peek = r.chance(0.3) ? 0.4 : 0.15;
    for (std::size_t i = 0; i < num_ops; i++) ops += r.chance(w_reset) ? 'R' : r.chance(w_peek) ? 'p' : r.chance(0.1) ? 's' : r.chance(0.05) ? 'n' : r.chance(0.05) ? '~' : 'r';
    if (r.chance(0.3)) ops[0] = 'R';
    if (r.chance(0.3)) ops[0] = 's';
    if (r.chance(0.1)) ops.insert(r.below(ops.size()), "RR");
    c.describe(fmt::format("{} rows={} stores={} batch={} last={} bad={} error={} shuffle={} window={} reshuffle={} prefetch={} parallel={} doubles={} perturb={} ops={}", kind_name(g.kind), rows.size(), d.contents.size(), p.batch_size, static_cast<int>(p.last_example_handling), static_cast<int>(p.bad_example_handling), error, shuffle, p.shuffle_window, p.reshuffle_each_epoch, p.num_prefetched_examples, p.num_parallel_reads, doubles, level, ops));

    auto rd = d.open(p);
    // The schema as a reader that does nothing else reports it.
    auto q = p;
    q.dataset.clear();
    auto other = d.open(q);
    std::string schema = sorted_schema(other->read_schema().get());
    other = nullptr;

    // Within one reader the order of the attributes must not change either.
    std::string exact;
    auto check_schema = [&](const Schema *s, std::size_t op) {
        auto x = sorted_schema(s);
        CHECK(x == schema, "schema", "operation {}: the schema is {} instead of {}", op, x, schema);
        auto y = dump_schema(s);
        if (exact.empty()) exact = y;
        CHECK(y == exact, "schema-changes", "operation {}: the schema is {} and was {}", op, y, exact);
    };
    Perturb pert{r.next(), level};
    std::size_t pos = 0, resets = 0, peeks = 0, mid = 0;
    bool faulted = false, peeked = false;
    std::map<std::size_t, std::string> known;    // examples by position if the order is fixed
    std::set<std::string> seen;                  // rows of this epoch if shuffled
    std::string peeked_dump;
    const void *peeked_ptr{};
    for (std::size_t i = 0; i < ops.size(); i++) {
        switch (ops[i]) {
        case '~':
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
            break;
        case 'n':
            (void)rd->num_bytes_read();
            break;
        case 's': {
            check_schema(rd->read_schema().get(), i);
            break;
        }
        case 'R':
            if (pos != 0 && pos < model.size()) mid++;
            rd->reset();
            resets++;
            pos = 0;
            faulted = peeked = false;
            seen.clear();
            break;
        default: {
            bool peek = ops[i] == 'p';
            Intrusive_ptr<Example> e;
            bool thrown = false;
            try {
                e = peek ? rd->peek_example() : rd->read_example();
            }
            catch (const std::exception &ex) {
                CHECK(error, "exception", "operation {}: {}: {}", i, exc_type(ex), ex.what());
                thrown = true;
            }
            if (thrown) {
                CHECK(!peeked, "peek-lost", "operation {}: the peeked example was not returned but an exception raised", i);
                faulted = true;
                break;
            }
            CHECK(!faulted || peeked, "error-forgotten", "operation {}: no exception after one has been raised and before a reset", i);
            if (e == nullptr) {
                CHECK(!error, "error-missing", "operation {}: the end of the data is reported instead of an error", i);
                CHECK(!peeked, "peek-lost", "operation {}: the peeked example was not returned", i);
                CHECK(pos == model.size(), "early-end", "operation {}: the data ends after {} of {} examples", i, pos, model.size());
                if (shuffle && !drop) CHECK(seen.size() == all.size(), "permutation", "operation {}: {} of {} rows have been delivered", i, seen.size(), all.size());
                break;
            }
            CHECK(pos < model.size(), "surplus", "operation {}: an example is returned after all {}", i, model.size());
            auto got = example_rows(*e);
            auto &want = model[pos];
            CHECK(batch_dim(*e) == want.dim, "batch-dimension", "operation {}: example {} has the batch dimension {} instead of {}", i, pos, batch_dim(*e), want.dim);
            check_schema(&e->schema(), i);
            std::string dump = dump_example(*e);
            if (!shuffle) {
                auto diff = first_difference(want.rows, got);
                CHECK(diff.empty(), "rows", "operation {} ({}): example {}: {}", i, ops[i], pos, diff);
            }
            else {
                CHECK(got.size() == want.rows.size(), "rows", "operation {}: example {} has {} rows", i, pos, got.size());
                if (!peeked)
                    for (auto &x : got) {
                        CHECK(all.count(x) != 0, "permutation", "operation {}: unknown row {}", i, x);
                        CHECK(seen.insert(x).second, "permutation", "operation {}: row {} is delivered twice", i, x);
                    }
                if (fixed) {
                    auto it = known.emplace(pos, dump).first;
                    CHECK(it->second == dump, "epochs-differ", "operation {}: example {} differs from that of an earlier epoch", i, pos);
                }
            }
            if (peeked) {
                CHECK(dump == peeked_dump, "peek-differs", "operation {}: the example differs from the peeked one", i);
                CHECK(e.get() == peeked_ptr, "peek-differs", "operation {}: the example is not the peeked one", i);
            }
            peeked = peek;
            peeked_dump = dump;
            peeked_ptr = e.get();
            if (peek)
                peeks++;
            else
                pos++;
            break;
        }
        }
    }
    c.count("operations", ops.size());
    c.count("resets", resets);
    c.count("resets in the middle of an epoch", mid);
    c.count("peeks", peeks);
    c.observe("interleavings", Perturb::interleaving());
    c.nontrivial = mid != 0 || peeks != 0;
}
}  // namespace V
