#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C08";
const char *const rule =
    "Each case draws a dataset of any kind (in a fifth of the cases with damaged bytes) and reader parameters, reads it from memory with default buffers and then from several other carriers of the "
    "same bytes: mapped and unmapped files, gzip in memory and in files, test streams with short, random or single byte reads, seekable or not, zero-copy or not, each with drawn chunk and buffer "
    "sizes; schemas, rows, batches and paddings must be equal, or all fail with agreeing prefixes. Non-trivial: the dataset has bytes. Distinct by dataset and carriers.";
std::uint64_t num_cases(bool thorough) { return thorough ? 100000 : 12000; }

namespace {

struct Carrier {
    std::string name;
    std::vector<Intrusive_ptr<Data_store>> stores;
    std::vector<std::shared_ptr<Plan>> plans;
};

Intrusive_ptr<Data_store> carry(Case &c, Rng &r, const Bytes &b, std::size_t nr, Carrier &out)
{
    unsigned how = static_cast<unsigned>(r.below(10));
    std::string path = fmt::format("{}/f{}", c.scratch, nr);
    c.count(fmt::format("carrier {}", how));
    switch (how) {
    case 0:
    case 1:
        write_file(path, b);
        out.name += how == 0 ? " mapped" : " file";
        return make_intrusive<File>(path, how == 0, Compression::none);
    case 2:
    case 3: {
        bool infer = r.chance(0.5);
        if (infer) path += ".gz";
        write_file(path, deflate_bytes(b, static_cast<int>(r.below(10)), 0, 8, 31, r.chance(0.3) ? r.in(1, 100) : 0));
        out.name += how == 2 ? " mapped-gzip" : " file-gzip";
        return make_intrusive<File>(path, how == 2, infer ? Compression::infer : Compression::gzip);
    }
    case 4: {
        Bytes z;
        // Several members
        std::size_t parts = r.in(1, 3), at = 0;
        for (std::size_t i = 0; i < parts; i++) {
            std::size_t n = i + 1 == parts ? b.size() - at : r.below(b.size() - at + 1);
            z += deflate_bytes(b.substr(at, n));
            at += n;
        }
        out.name += " gzip";
        return memory_store(z, Compression::gzip);
    }
    case 5:
        out.name += " memory";
        return memory_store(b);
    default: {
        auto p = make_plan(b, fmt::format("s{}", nr));
        p->max_read = r.chance(0.3) ? 1 : r.chance(0.2) ? 0 : r.in(1, 64);
        p->random_reads = r.chance(0.6);
        p->seekable = r.chance(0.4);
        p->zero_copy = p->seekable && r.chance(0.6);  // the readers take a zero-copy stream for seekable
        p->seed = r.next();
        out.name += fmt::format(" stream(max={},seek={},zero-copy={})", p->max_read, p->seekable, p->zero_copy);
        out.plans.push_back(p);
        return make_store(p);
    }
    }
}

// The attributes of a protobuf message have no order.
std::string sorted(const std::string &schema)
{
    std::vector<std::string> parts;
    std::istringstream in{schema};
    for (std::string x; std::getline(in, x, ';');) parts.push_back(x);
    std::sort(parts.begin(), parts.end());
    return fmt::format("{}", fmt::join(parts, ";"));
}

struct Outcome {
    Result res;
    std::string schema;
    bool failed() const { return !res.error.empty(); }
};

Outcome run(const Dataset &d, Data_reader_params p, unsigned order)
{
    Outcome o;
    std::string schema_error;
    try {
        auto rd = d.open(std::move(p));
        if (order == 1) {
            auto s = rd->read_schema();
            o.schema = dump_schema(s.get());
        }
        if (order == 2) {
            auto e = rd->peek_example();
            (void)e;
        }
        o.res = read_all(*rd);
        if (o.res.error.empty()) {
            auto s = rd->read_schema();
            o.schema = dump_schema(s.get());
        }
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &e) {
        o.res.error = exc_type(e);
        o.res.error_text = e.what();
    }
    return o;
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(3) : g.kind == Kind::image_file ? r.in(1, 10) : r.in(3, 40);
    g.num_stores = r.in(1, 4);
    g.pad_len = r.chance(0.3) ? r.in(1, 400) : 0;
    g.bad = r.chance(0.3) ? 0.2 : 0;
    Dataset d = make_dataset(r, g);
    bool damaged = r.chance(0.2) && !d.contents.empty();
    if (damaged) {
        Bytes &b = d.contents[r.below(d.contents.size())];
        if (!b.empty()) switch (r.below(4)) {
            case 0:
                b.resize(r.below(b.size()));
                break;
            case 1:
                b[r.below(b.size())] ^= static_cast<char>(1U << r.below(8));
                break;
            case 2:
                b.erase(r.below(b.size()), r.in(1, 4));
                break;
            default:
                b.insert(r.below(b.size() + 1), Bytes(r.in(1, 4), static_cast<char>(r.below(256))));
                break;
            }
    }
    Data_reader_params p;
    p.batch_size = r.in(1, 6);
    p.num_prefetched_examples = r.below(4);
    p.num_parallel_reads = r.below(4);
    p.last_example_handling = r.pick({Last_example_handling::none, Last_example_handling::drop, Last_example_handling::pad});
    if (r.chance(0.7) || g.bad > 0) p.bad_example_handling = r.pick({Bad_example_handling::skip, Bad_example_handling::pad, Bad_example_handling::error});
    if (r.chance(0.2)) p.num_instances_to_skip = r.below(g.num_rows + 2);
    if (r.chance(0.2)) p.num_instances_to_read = r.below(g.num_rows + 2);
    if (r.chance(0.15)) {
        p.shuffle_instances = true;
        p.shuffle_window = r.below(6);
        p.shuffle_seed = r.next();
    }
    bool parallel = r.chance(0.3);
    std::string base = fmt::format("{} rows={} stores={} damaged={} batch={} bad={} bad-mode={} last={} parallel={}", kind_name(g.kind), g.num_rows, d.contents.size(), damaged, p.batch_size, g.bad, static_cast<int>(p.bad_example_handling), static_cast<int>(p.last_example_handling), parallel);
    c.describe(base);
    Tune tune;
    auto ref_params = p;
    ref_params.dataset = d.memory_stores();
    Outcome ref = run(d, ref_params, 0);
    c.count(ref.failed() ? "failing datasets" : "readable datasets");
    std::size_t total = 0;
    for (auto &b : d.contents) total += b.size();
    c.nontrivial = total != 0;
    std::string all;
    std::size_t rounds = r.in(1, 3);
    for (std::size_t k = 0; k < rounds; k++) {
        std::string knobs = Tune::randomize(r, true);
        if (parallel) Tune::cut_off(1);
        Carrier car;
        for (std::size_t i = 0; i < d.contents.size(); i++) car.stores.push_back(carry(c, r, d.contents[i], i, car));
        all += car.name + knobs + "/";
        c.describe(fmt::format("{} | carriers{} | {}", base, car.name, knobs));
        auto q = p;
        q.dataset = car.stores;
        Outcome got = run(d, q, static_cast<unsigned>(r.below(3)));
        c.count("comparisons");
        CHECK(got.failed() == ref.failed(), "fails-differently", "from memory {} ({}), from the carriers {} ({})", ref.failed() ? ref.res.error : "success", ref.res.error_text, got.failed() ? got.res.error : "success", got.res.error_text);
        if (!ref.failed()) {
            CHECK(got.res.rows == ref.res.rows, "rows", "{}", first_difference(ref.res.rows, got.res.rows));
            CHECK(got.res.batches == ref.res.batches && got.res.sizes == ref.res.sizes && got.res.paddings == ref.res.paddings, "batches", "batches {} instead of {}", fmt::format("{}", fmt::join(got.res.sizes, ",")), fmt::format("{}", fmt::join(ref.res.sizes, ",")));
            CHECK(sorted(got.schema) == sorted(ref.schema), "schema", "schema {} instead of {}", got.schema, ref.schema);
        }
        else {
            std::size_t n = std::min(got.res.rows.size(), ref.res.rows.size());
            CHECK(std::equal(got.res.rows.begin(), got.res.rows.begin() + static_cast<std::ptrdiff_t>(n), ref.res.rows.begin()), "rows", "before the error: {}", first_difference(ref.res.rows, got.res.rows));
        }
    }
    c.sig = fmt::format("{}|{}", base, hash_str(all));
}
}  // namespace V
