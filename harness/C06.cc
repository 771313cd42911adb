#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <mlio/record_readers/parquet_record_reader.h>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C06";
const char *const rule =
    "Each case puts one fault into a generated dataset: the n-th opening or the read at a drawn offset of a store fails (transiently or for good, with one of five exceptions), a file is missing, or the "
    "content is truncated or corrupt in a detectable way (RecordIO, split records, gzip, UTF-16, quoted field), or the header or first record is unusable for a while. Whenever the fault fired, the consumer must see an exception and before it only a "
    "prefix of the fault-free examples; later reads and the epoch after a reset are compared as well. Non-trivial: the fault fired. Distinct by configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 200000 : 12000; }

namespace {

struct Epoch {
    std::vector<std::string> rows;
    std::string error;
    std::size_t examples = 0;
};

Epoch read_epoch(Data_reader &rd, const std::vector<std::string> &expected, const Data_reader_params &p, const char *what)
{
    Epoch e;
    try {
        while (auto ex = rd.read_example()) {
            auto rows = example_rows(*ex);
            bool full = rows.size() == p.batch_size;
            e.rows.insert(e.rows.end(), rows.begin(), rows.end());
            e.examples++;
            if (!p.shuffle_instances) {
                CHECK(e.rows.size() <= expected.size(), "surplus-rows", "{}: {} rows are delivered, the dataset has {}", what, e.rows.size(), expected.size());
                for (std::size_t i = e.rows.size() - rows.size(); i < e.rows.size(); i++)
                    CHECK(e.rows[i] == expected[i], "changed-row", "{}: row {} is {} instead of {}", what, i, e.rows[i], expected[i]);
                CHECK(full || e.rows.size() == expected.size(), "short-example", "{}: example {} has {} rows although {} rows follow", what, e.examples - 1, rows.size(), expected.size() - e.rows.size());
            }
        }
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &x) {
        e.error = exc_type(x) + ": " + x.what();
    }
    return e;
}

void check_complete(const Epoch &e, std::vector<std::string> expected, const Data_reader_params &p, const char *what)
{
    CHECK(e.error.empty(), "exception", "{}: {}", what, e.error);
    auto got = e.rows;
    if (p.shuffle_instances) {
        std::sort(got.begin(), got.end());
        std::sort(expected.begin(), expected.end());
    }
    auto diff = first_difference(expected, got);
    CHECK(diff.empty(), "incomplete", "{}: {}", what, diff);
}

// Everything that may follow after the exception until the reset.
void check_sticky(Case &c, Data_reader &rd, const char *what)
{
    std::size_t n = c.rng.in(1, 4);
    for (std::size_t i = 0; i < n; i++) {
        if (c.rng.chance(0.2)) std::this_thread::sleep_for(std::chrono::microseconds(c.rng.below(300)));
        bool thrown = false;
        bool peek = c.rng.chance(0.4);
        Intrusive_ptr<Example> ex;
        try {
            ex = peek ? rd.peek_example() : rd.read_example();
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown, "error-forgotten", "{}: {} number {} after the exception returns {} instead of raising it again", what, peek ? "peek" : "read", i + 1, ex == nullptr ? "no example" : "an example");
    }
}

void vary(Case &c, Data_reader_params &p)
{
    Rng &r = c.rng;
    p.batch_size = r.chance(0.3) ? 1 : r.in(1, 7);
    p.num_prefetched_examples = r.below(5);
    p.num_parallel_reads = r.below(5);
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    p.last_example_handling = r.chance(0.7) ? Last_example_handling::none : Last_example_handling::pad;
    if (r.chance(0.1)) {
        p.shuffle_instances = true;
        p.shuffle_window = r.below(6);
    }
}

// The store fails while it is opened or read.
void access_fault(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.chance(0.15) ? r.in(1, 3) : r.in(3, 40);
    g.num_stores = r.in(1, 4);
    g.pad_len = r.chance(0.3) ? 200 : 0;
    Dataset d = make_dataset(r, g);
    auto expected = d.dumps();
    Data_reader_params p;
    vary(c, p);
    std::string tune = Tune::randomize(r);
    if (r.chance(0.3)) Tune::cut_off(1);
    if (r.chance(0.25)) p.num_instances_to_skip = r.below(expected.size() + 1);
    expected = range_select(expected, p);

    struct State {
        std::atomic_bool on{true};
        std::atomic_size_t fired{}, left{};
    };
    auto st = std::make_shared<State>();
    bool transient = r.chance(0.5);
    st->left = transient ? r.in(1, 2) : 1000000;
    Err err = static_cast<Err>(r.below(5));
    std::size_t where = r.below(d.contents.size());
    bool open = r.chance(0.3);
    std::size_t size = d.contents[where].size();
    // Some faults strike at the very end of the store.
    std::size_t offset = r.chance(0.2) ? size : r.chance(0.2) ? 0 : r.below(size + 1);
    bool zero_copy = r.chance(0.25);
    for (std::size_t i = 0; i < d.contents.size(); i++) {
        auto plan = make_plan(d.contents[i], fmt::format("store-{}", i));
        plan->seed = r.next();
        plan->max_read = r.chance(0.4) ? 0 : r.in(1, 60);
        plan->random_reads = true;
        plan->zero_copy = plan->seekable = zero_copy;
        if (!zero_copy) plan->seekable = r.chance(0.3);
        if (i == where) {
            if (open)
                plan->on_open = [st, err](std::size_t) {
                    if (st->on && st->left > 0) {
                        st->left--;
                        st->fired++;
                        throw_err(err);
                    }
                };
            else
                plan->on_read = [st, err, offset](std::size_t, std::size_t off) -> std::size_t {
                    if (!st->on || st->left == 0) return 0;
                    if (off >= offset) {
                        st->left--;
                        st->fired++;
                        throw_err(err);
                    }
                    // The reads before stop at the offset of the fault.
                    return offset - off;
                };
        }
        p.dataset.push_back(make_store(plan));
    }
    c.describe(fmt::format("access-fault {} rows={} stores={} batch={} prefetch={} parallel={} bad-handling={} shuffle={} skip={} fault={} of store {} at {} of {} error={} {} zero-copy={} {}", kind_name(d.kind), d.size(), d.contents.size(), p.batch_size, p.num_prefetched_examples, p.num_parallel_reads,
        static_cast<int>(p.bad_example_handling), p.shuffle_instances, p.num_instances_to_skip, open ? "open" : "read", where, offset, size, static_cast<int>(err), transient ? "transient" : "persistent", zero_copy, tune));
    auto rd = d.open(p);
    std::string first_error;
    std::size_t before = r.below(4);
    if (before == 1 || before == 2) {
        try {
            if (before == 1)
                rd->read_schema();
            else
                rd->peek_example();
        }
        catch (const std::exception &e) {
            first_error = e.what();
        }
    }
    std::size_t fired = 0;
    if (first_error.empty()) {
        Epoch e = read_epoch(*rd, expected, p, "epoch with a fault");
        fired = st->fired;
        if (fired != 0)
            CHECK(!e.error.empty(), "end-of-data", "the {} failed {} time(s), but the reader reports the end of the data after {} of {} rows", open ? "opening" : "read", fired, e.rows.size(), expected.size());
        else
            check_complete(e, expected, p, "epoch without a fault");
        first_error = e.error;
    }
    fired = st->fired;
    if (fired != 0) {
        c.count("faults that fired");
        c.count(fmt::format("faults: {} {}", open ? "open" : "read", kind_name(d.kind)));
        // Failures of the kinds that the streams of the library raise are reported with the name of the data store.
        bool plain_image = open && d.kind == Kind::image_file;  // a failure to open it is passed on as it is
        if (!first_error.empty() && !plain_image && (err == Err::stream || err == Err::system || err == Err::not_supported))
            CHECK(first_error.find(fmt::format("store-{}", where)) != std::string::npos, "error-text", "the error does not name the data store store-{}: {}", where, first_error);
        check_sticky(c, *rd, "access fault");
    }
    // With the fault still in place the next epoch fails again.
    if (fired != 0 && !transient && r.chance(0.4)) {
        rd->reset();
        Epoch e = read_epoch(*rd, expected, p, "second epoch with a fault");
        CHECK(!e.error.empty(), "end-of-data", "the second epoch with the fault ends without an exception after {} of {} rows", e.rows.size(), expected.size());
    }
    st->on = false;
    rd->reset();
    check_complete(read_epoch(*rd, expected, p, "epoch after the fault"), expected, p, "epoch after the fault");
    c.nontrivial = fired != 0;
    c.observe("fault positions", hash_str(fmt::format("{} {} {} {} {}", kind_name(d.kind), open, where, offset, size)));
}

// The content is truncated or corrupt.
void content_fault(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    int what = static_cast<int>(r.below(7));
    // 0: record cut off, 1: gzip cut off, 2: gzip corrupt trailer, 3: UTF-16 cut off, 4: quote not closed, 5: split record incomplete, 6: bad magic
    static const char *const names[] = {"record cut off", "gzip cut off", "gzip trailer", "utf-16 cut off", "open quote", "split record", "magic number"};
    g.kind = what == 0 || what == 5 || what == 6 ? r.pick({Kind::proto, Kind::image_rec}) : what == 3 ? r.pick({Kind::csv, Kind::text}) : what == 4 ? Kind::csv : r.pick({Kind::csv, Kind::text, Kind::proto, Kind::image_rec});
    if (what == 3) g.kind = Kind::csv;
    g.num_rows = r.in(1, 30);
    g.num_stores = r.in(1, 4);
    g.empty_stores = false;
    g.csv_headers = false;
    g.pad_len = r.chance(0.3) ? 300 : 0;
    Dataset d = make_dataset(r, g);
    Data_reader_params p;
    vary(c, p);
    std::string tune = Tune::randomize(r);
    std::vector<Bytes> contents = d.contents;
    std::vector<std::size_t> used;
    for (std::size_t i = 0; i < contents.size(); i++)
        if (!contents[i].empty()) used.push_back(i);
    if (used.empty()) {
        c.nontrivial = false;
        return;
    }
    std::size_t where = r.pick(used);
    auto expected = d.dumps();
    std::vector<Compression> comp(contents.size(), Compression::none);
    Bytes &b = contents[where];
    if (what == 0) {
        // Not at a boundary of records.
        std::set<std::size_t> bounds{0};
        std::size_t pos = 0;
        for (auto &row : d.stores[where]) {
            pos += recordio(row.payload).size();
            bounds.insert(pos);
        }
        if (pos != b.size()) {
            c.nontrivial = false;
            return;
        }
        std::size_t cut = 1 + r.below(b.size() - 1);
        if (bounds.count(cut) != 0) cut--;
        if (bounds.count(cut) != 0) cut -= 2;
        b.resize(cut);
    }
    else if (what == 1 || what == 2) {
        for (std::size_t i = 0; i < contents.size(); i++)
            if (i == where || r.chance(0.4)) {
                contents[i] = deflate_bytes(contents[i], static_cast<int>(r.below(10)));
                comp[i] = Compression::gzip;
            }
        if (what == 1)
            b.resize(r.chance(0.3) ? b.size() - 1 - r.below(std::min<std::size_t>(8, b.size() - 1)) : 1 + r.below(b.size() - 1));
        else
            b[b.size() - 1 - r.below(8)] ^= static_cast<char>(1U << r.below(8));
    }
    else if (what == 3) {
        for (auto &s : contents) {
            Bytes w;
            for (char ch : s) {
                auto u = static_cast<unsigned char>(ch);
                w.push_back(static_cast<char>(u < 0x80 ? u : '?'));
                w.push_back('\0');
            }
            s = w;
        }
        for (auto &row : expected)
            for (char ch : row)
                if (static_cast<unsigned char>(ch) >= 0x80 || ch == '\\') {
                    c.nontrivial = false;
                    return;
                }
        d.csv.encoding = Text_encoding{"UTF-16LE"};
        b.resize(b.size() / 2 * 2 - 1);
    }
    else if (what == 4) {
        d.csv.allow_quoted_new_lines = true;
        if (d.csv.header_row_index || !d.csv.column_names.empty()) {}
        if (b.back() != '\n' && b.back() != '\r') b += "\n";
        b += "\"never closed";
    }
    else if (what == 5) {
        auto &rows = d.stores[where];
        std::size_t k = r.below(rows.size());
        b.clear();
        for (std::size_t i = 0; i < rows.size(); i++) {
            if (i != k) {
                b += recordio(rows[i].payload);
                continue;
            }
            auto parts = recordio_split(rows[i].payload, r.in(2, 4));
            parts.erase(parts.begin() + static_cast<std::ptrdiff_t>(r.chance(0.5) ? parts.size() - 1 : 0));
            for (auto &x : parts) b += x;
        }
    }
    else {
        auto &rows = d.stores[where];
        std::size_t k = r.below(rows.size()), pos = 0;
        b.clear();
        for (std::size_t i = 0; i < rows.size(); i++) {
            if (i == k) pos = b.size();
            b += recordio(rows[i].payload);
        }
        b[pos + r.below(4)] ^= static_cast<char>(1U << r.below(8));
    }
    std::size_t max_read = r.chance(0.5) ? 0 : r.in(1, 50);
    auto stores = [&](const std::vector<Bytes> &v, bool gz) {
        std::vector<Intrusive_ptr<Data_store>> s;
        for (std::size_t i = 0; i < v.size(); i++) {
            if (gz && comp[i] == Compression::gzip) {
                s.push_back(memory_store(v[i], Compression::gzip));
                continue;
            }
            auto plan = make_plan(v[i], fmt::format("store-{}", i));
            plan->max_read = max_read;
            s.push_back(make_store(plan));
        }
        return s;
    };
    p.dataset = stores(contents, true);
    c.describe(fmt::format("content-fault '{}' in store {} of {} {} rows={} batch={} prefetch={} parallel={} bad-handling={} shuffle={} {} content={}", names[what], where, contents.size(), kind_name(d.kind), expected.size(), p.batch_size, p.num_prefetched_examples, p.num_parallel_reads,
        static_cast<int>(p.bad_example_handling), p.shuffle_instances, tune, quote(b)));
    auto rd = d.open(p);
    std::size_t epochs = r.in(1, 2);
    for (std::size_t k = 0; k < epochs; k++) {
        Epoch e = read_epoch(*rd, expected, p, names[what]);
        CHECK(!e.error.empty(), "corruption-ignored", "the reader reports the end of the data after {} of {} rows although the content is corrupt ({})", e.rows.size(), expected.size(), names[what]);
        // Of an incomplete split record, it can be the data store where the next record begins.
        bool named = false;
        for (std::size_t i = where; i < (what == 5 ? contents.size() : where + 1); i++) named = named || e.error.find(p.dataset[i]->id()) != std::string::npos;
        CHECK(named, "error-text", "the error does not name the data store '{}': {}", p.dataset[where]->id(), e.error);
        check_sticky(c, *rd, names[what]);
        rd->reset();
    }
    c.count(fmt::format("corrupt contents: {}", names[what]));
    c.observe("corrupt contents", hash_str(b));
}

// A store that delivers something else for a while.
class Changing_store final : public Data_store {
public:
    Changing_store(Bytes good, Bytes bad, std::shared_ptr<std::atomic_bool> fault, std::string id) : good_{std::move(good)}, bad_{std::move(bad)}, fault_{std::move(fault)}, id_{std::move(id)} {}
    Intrusive_ptr<Input_stream> open_read() const override { return memory_store(*fault_ ? bad_ : good_)->open_read(); }
    std::string repr() const override { return "<Changing_store>"; }
    const std::string &id() const override { return id_; }

private:
    Bytes good_, bad_;
    std::shared_ptr<std::atomic_bool> fault_;
    std::string id_;
};

// The first instance or the header cannot be used; the schema must not keep anything of it.
void schema_fault(Case &c)
{
    Rng &r = c.rng;
    int what = static_cast<int>(r.below(6));
    static const char *const names[] = {"open quote in the header", "short first row", "long first row", "open quote in the first row", "no header and an open quote", "corrupt first record"};
    std::size_t n = r.in(1, 20);
    Data_reader_params p;
    vary(c, p);
    p.shuffle_instances = false;
    auto fault = std::make_shared<std::atomic_bool>(true);
    std::string tune = Tune::randomize(r);
    Bytes good, bad, tail;
    Csv_params cp;
    Dataset d;
    bool csv = what != 5;
    if (csv) {
        std::size_t extra = r.below(4);
        Bytes header = "id,f,s";
        for (std::size_t i = 0; i < extra; i++) header += fmt::format(",x{}", i);
        for (std::size_t i = 0; i < n; i++) {
            Bytes row = fmt::format("{},{}.5,t{}", r.below(1000), r.below(100), i);
            for (std::size_t k = 0; k < extra; k++) row += fmt::format(",{}", r.below(10));
            (i < n / 2 ? good : tail) += row + "\n";
        }
        cp.header_row_index = 0;
        cp.column_types = {{"id", Data_type::int64}, {"f", Data_type::float64}};
        if (r.chance(0.5)) cp.column_types["s"] = Data_type::string;
        if (r.chance(0.3)) cp.use_columns = {"id", "s"};
        cp.default_data_type = r.chance(0.5) ? std::optional<Data_type>{Data_type::string} : std::nullopt;
        cp.dedupe_column_names = false;
        if (!cp.use_columns.empty()) cp.column_types.erase("f");
        Bytes rows = good;
        switch (what) {
        case 0:
            bad = r.chance(0.5) ? "id,\"f" : "id,f,s,\"x0\n1,2,3,4\n";
            break;
        case 1:
            bad = header + "\n1,2.5\n" + rows;
            break;
        case 2:
            bad = header + "\n1,2.5" + Bytes(extra + 2, ',') + "\n" + rows;
            break;
        case 3:
            bad = header + "\n1,2.5,\"t\n";
            break;
        default:
            cp.header_row_index = std::nullopt;
            cp.use_columns.clear();
            cp.column_types = {{"1", Data_type::int64}, {"2", Data_type::float64}};
            bad = "1,2.5,\"t\n";
            break;
        }
        if (what == 4)
            good = rows;
        else {
            good = header + "\n" + rows;
            if (!tail.empty()) tail = header + "\n" + tail;
        }
    }
    else {
        Gen g;
        g.kind = Kind::proto;
        g.num_rows = n;
        g.num_stores = 1;
        g.empty_stores = false;
        d = make_dataset(r, g);
        good = d.contents[0];
        bad = good;
        Bytes junk = "\x01junk that is no message";
        bad = recordio(junk) + good;
        if (good.empty()) return;
    }
    auto open = [&](const Data_reader_params &q) -> Intrusive_ptr<Data_reader> {
        if (csv) return make_intrusive<Csv_reader>(q, cp);
        return make_intrusive<Recordio_protobuf_reader>(q);
    };
    auto q = p;
    q.dataset = {memory_store(good)};
    p.dataset = {make_intrusive<Changing_store>(good, bad, fault, "changing")};
    if (!tail.empty()) {
        q.dataset.push_back(memory_store(tail));
        p.dataset.push_back(memory_store(tail));
    }
    c.describe(fmt::format("schema-fault '{}' rows={} batch={} prefetch={} parallel={} bad-handling={} types={} use={} {} bad={} good={}", names[what], n, p.batch_size, p.num_prefetched_examples, p.num_parallel_reads, static_cast<int>(p.bad_example_handling), cp.column_types.size(), cp.use_columns.size(), tune, quote(bad, 200), quote(good, 200)));
    auto ref = open(q);
    auto want = read_all(*ref);
    CHECK(want.error.empty(), "exception", "the data without a fault: {} {}", want.error, want.error_text);
    auto schema = dump_schema(ref->read_schema().get());
    auto rd = open(p);
    std::size_t attempts = r.in(1, 3);
    for (std::size_t k = 0; k < attempts; k++) {
        std::size_t calls = r.in(1, 3);
        for (std::size_t i = 0; i < calls; i++) {
            bool thrown = false;
            try {
                switch (r.below(3)) {
                case 0:
                    rd->read_schema();
                    break;
                case 1:
                    rd->read_example();
                    break;
                default:
                    rd->peek_example();
                    break;
                }
            }
            catch (const std::exception &) {
                thrown = true;
            }
            CHECK(thrown, "corruption-ignored", "call {} of attempt {} raises no exception although the first store has the fault '{}'", i, k, names[what]);
        }
        rd->reset();
    }
    *fault = false;
    bool ask = r.chance(0.5);
    if (ask && csv) CHECK(dump_schema(rd->read_schema().get()) == schema, "schema", "the schema after the fault is {} instead of {}", dump_schema(rd->read_schema().get()), schema);
    check_complete(read_epoch(*rd, want.rows, p, "epoch after a schema fault"), want.rows, p, "epoch after a schema fault");
    if (!ask && csv) CHECK(dump_schema(rd->read_schema().get()) == schema, "schema", "the schema after the fault is {} instead of {}", dump_schema(rd->read_schema().get()), schema);
    c.count(fmt::format("schema faults: {}", names[what]));
}

// Files that cannot be opened.
void file_fault(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.in(1, 20);
    g.num_stores = r.in(1, 5);
    Dataset d = make_dataset(r, g);
    auto expected = d.dumps();
    Data_reader_params p;
    vary(c, p);
    bool map = r.chance(0.5);
    int what = static_cast<int>(r.below(3));  // 0: missing, 1: a directory, 2: removed after the first epoch
    std::size_t where = r.below(d.contents.size());
    std::vector<std::string> paths;
    for (std::size_t i = 0; i < d.contents.size(); i++) {
        std::string path = fmt::format("{}/c06-{}", c.scratch, i);
        paths.push_back(path);
        ::unlink(path.c_str());
        ::rmdir(path.c_str());
        if (i != where || what == 2)
            write_file(path, d.contents[i]);
        else if (what == 1)
            ::mkdir(path.c_str(), 0700);
        p.dataset.push_back(make_intrusive<File>(path, map));
    }
    c.describe(fmt::format("file-fault {} '{}' store {} of {} rows={} batch={} mapped={} prefetch={} parallel={} bad-handling={} shuffle={}", kind_name(d.kind), what == 0 ? "missing" : what == 1 ? "directory" : "removed", where, paths.size(), expected.size(), p.batch_size, map, p.num_prefetched_examples, p.num_parallel_reads,
        static_cast<int>(p.bad_example_handling), p.shuffle_instances));
    auto rd = d.open(p);
    if (what == 2) {
        check_complete(read_epoch(*rd, expected, p, "first epoch"), expected, p, "first epoch");
        rd->reset();
        ::unlink(paths[where].c_str());
    }
    Epoch e = read_epoch(*rd, expected, p, "epoch with an unreadable file");
    CHECK(!e.error.empty(), "end-of-data", "the reader reports the end of the data after {} of {} rows although a file cannot be read", e.rows.size(), expected.size());
    if (what != 1) CHECK(e.error.find(paths[where]) != std::string::npos, "error-text", "the error does not name the file {} that cannot be opened: {}", paths[where], e.error);
    check_sticky(c, *rd, "unreadable file");
    ::rmdir(paths[where].c_str());
    write_file(paths[where], d.contents[where]);
    rd->reset();
    check_complete(read_epoch(*rd, expected, p, "epoch after the repair"), expected, p, "epoch after the repair");
    for (auto &path : paths) ::unlink(path.c_str());
    c.count("unreadable files");
}

// Parquet records come straight from a record reader, which the user may ask again after a failure.
void record_fault(Case &c)
{
    Rng &r = c.rng;
    std::string tune = Tune::randomize(r);
    Bytes b;
    std::vector<Bytes> frames;
    for (std::size_t i = r.in(1, 5); i-- > 0;) {
        Bytes f = "PAR1" + Bytes(r.below(200), static_cast<char>('a' + i)) + "\x15";
        std::size_t n = r.in(12, 30);
        f += Bytes(n - 2, 'm') + Bytes(1, '\0') + Bytes(1, static_cast<char>(n)) + Bytes(3, '\0') + "PAR1";
        frames.push_back(f);
        b += f;
    }
    auto plan = make_plan(b);
    plan->max_read = r.chance(0.4) ? 0 : r.in(1, 60);
    plan->random_reads = true;
    plan->seed = r.next();
    plan->zero_copy = plan->seekable = r.chance(0.3);
    auto left = std::make_shared<std::size_t>(r.in(1, 3));
    auto fired = std::make_shared<std::size_t>(0);
    Err err = static_cast<Err>(r.below(5));
    std::size_t offset = r.below(b.size() + 1);
    plan->on_read = [left, fired, err, offset](std::size_t, std::size_t off) -> std::size_t {
        if (*left == 0) return 0;
        if (off >= offset) {
            --*left;
            ++*fired;
            throw_err(err);
        }
        return offset - off;
    };
    c.describe(fmt::format("record-fault frames={} bytes={} fault at {} error={} times={} zero-copy={} max-read={} {}", frames.size(), b.size(), offset, static_cast<int>(err), *left, plan->zero_copy, plan->max_read, tune));
    // A stream that hands out its memory is read when the reader is constructed, and so may fail then.
    Intrusive_ptr<mlio::detail::Parquet_record_reader> rd;
    std::size_t done = 0, errors = 0;
    for (std::size_t i = 0; i < 6 && !rd; i++) {
        std::size_t before = *fired;
        try {
            rd = make_intrusive<mlio::detail::Parquet_record_reader>(make_store(plan)->open_read());
        }
        catch (const std::exception &) {
            CHECK(*fired != before, "unexpected-exception", "a record reader cannot be constructed although no read failed");
            continue;
        }
        CHECK(*fired == before, "swallowed", "a read failed while a record reader was constructed, and nothing was reported");
    }
    CHECK(rd != nullptr, "unexpected-exception", "a record reader cannot be constructed after the failures are over");
    std::size_t fired_before = *fired;
    std::vector<Record> kept;
    while (errors < 6) {
        std::optional<Record> x;
        try {
            x = r.chance(0.3) ? rd->peek_record() : std::nullopt;
            x = rd->read_record();
        }
        catch (const Violation &) {
            throw;
        }
        catch (const std::exception &) {
            errors++;
            continue;
        }
        if (!x) {
            CHECK(*fired == fired_before || errors != 0, "end-of-data", "a record reader reports the end of the data after {} of {} records although a read failed", done, frames.size());
            CHECK(done == frames.size(), "end-of-data", "a record reader reports the end of the data after {} of {} records and {} failures", done, frames.size(), errors);
            break;
        }
        Bytes got(reinterpret_cast<const char *>(x->payload().data()), x->payload().size());
        CHECK(done < frames.size() && got == frames[done], "garbled", "record {} after {} failures is {}", done, errors, quote(got, 200));
        done++;
        kept.push_back(std::move(*x));
    }
    rd = nullptr;
    for (std::size_t i = 0; i < kept.size(); i++) {
        Bytes got(reinterpret_cast<const char *>(kept[i].payload().data()), kept[i].payload().size());
        CHECK(got == frames[i], "garbled", "record {} has changed", i);
    }
    if (*fired != 0) c.count("record readers that failed");
    c.nontrivial = *fired != 0;
    c.sig = fmt::format("record {} {} {} {}", offset, hash_str(b), static_cast<int>(err), plan->max_read);
}

}  // namespace

void run_case(Case &c)
{
    Tune t;
    auto x = c.rng.below(21);
    if (x == 20)
        record_fault(c);
    else if (x < 11)
        access_fault(c);
    else if (x < 17)
        content_fault(c);
    else if (x < 18)
        schema_fault(c);
    else
        file_fault(c);
}
}  // namespace V
