#include <cstdlib>
#include <new>

#include "datasets.h"
#include "mlio/record_readers/parquet_record_reader.h"

// Allocations beyond this limit fail as they do if memory is scarce; otherwise shapes that are made up by corrupt data would only exercise the allocator.
static constexpr std::size_t alloc_limit = 4U << 20U;
static void *limited_new(std::size_t n)
{
    if (n > alloc_limit) throw std::bad_alloc{};
    void *p = std::malloc(n == 0 ? 1 : n);
    if (p == nullptr) throw std::bad_alloc{};
    return p;
}
void *operator new(std::size_t n) { return limited_new(n); }
void *operator new[](std::size_t n) { return limited_new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }

namespace V {
using namespace mlio;
const char *const property_id = "C03";
const char *const rule =
    "Each case reads mutated, spliced, truncated or random bytes (starting from valid CSV, text, RecordIO-protobuf, image, gzip, UTF and Parquet data) with a random reader, parameters, delivery and "
    "buffer sizes under AddressSanitizer and UndefinedBehaviorSanitizer with library assertions; every value of every example is visited and tensor sizes and coordinates are checked. "
    "Non-trivial: the reader got beyond its construction. Distinct by content and parameters.";
std::uint64_t num_cases(bool thorough) { return thorough ? 600000 : 30000; }

namespace {

void le(Bytes &b, std::uint64_t v, int n)
{
    for (int i = 0; i < n; i++) b.push_back(static_cast<char>(v >> (8 * i)));
}

Bytes interesting(Rng &r)
{
    Bytes b;
    switch (r.below(8)) {
    case 0:
        le(b, r.pick<std::uint64_t>({0, 1, 0x7f, 0x80, 0xff}), 1);
        break;
    case 1:
        le(b, r.pick<std::uint64_t>({0, 0x7fff, 0x8000, 0xffff, 0xd800, 0xdfff, 0xfeff, 0xfffe}), 2);
        break;
    case 2:
        le(b, r.pick<std::uint64_t>({0, 0x7fffffff, 0x80000000, 0xffffffff, 0x1fffffff, 0xced7230a, 0x10ffff, 0x110000}), 4);
        break;
    case 3: {
        Pb v;
        v.varint(r.pick<std::uint64_t>({0, 1, 255, 256, 1ULL << 31, 1ULL << 32, 1ULL << 62, 1ULL << 63, ~0ULL, ~0ULL - 1}));
        b = v.b;
        break;
    }
    case 4:
        b = r.pick<Bytes>({"\"", "\"\"", "\r", "\r\n", "\n", ",", "\"\n", "#", "\xEF\xBB\xBF", "\xff\xfe", "\xfe\xff", Bytes("\0", 1), "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xE2\x82"});
        break;
    case 5:
        b = r.pick<Bytes>({"nan", "-", "+", "0x", "1e999", "-1e-999", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "1e", ".", "inf", "-0", "0x1p-1080", "00000000000000000000000000000000000001"});
        break;
    case 6:
        b = Bytes(r.in(1, 300), r.pick({'\0', '9', '"', ',', '\n', '\xff', ' ', 'a'}));
        break;
    default:
        for (std::size_t i = r.in(1, 12); i-- > 0;) b.push_back(static_cast<char>(r.below(256)));
    }
    return b;
}

void mutate(Rng &r, Bytes &b, const Bytes &other)
{
    std::size_t n = r.chance(0.5) ? 1 : r.in(1, 12);
    for (std::size_t k = 0; k < n; k++) {
        std::size_t pos = b.empty() ? 0 : r.below(b.size() + 1);
        std::size_t len = b.empty() ? 0 : std::min(b.size() - pos, r.in(1, r.chance(0.7) ? 4 : 60));
        switch (r.below(9)) {
        case 0:
        case 1:
            if (pos < b.size()) b[pos] = static_cast<char>(b[pos] ^ (1 << r.below(8)));
            break;
        case 2:
            if (pos < b.size()) b[pos] = static_cast<char>(r.below(256));
            break;
        case 3:
            b.erase(pos, len);
            break;
        case 4:
            b.insert(pos, b.substr(pos, len));
            break;
        case 5:
            b.insert(pos, interesting(r));
            break;
        case 6: {
            Bytes i = interesting(r);
            b.replace(pos, std::min(i.size(), b.size() - pos), i);
            break;
        }
        case 7:
            if (!other.empty()) {
                std::size_t o = r.below(other.size());
                b.insert(pos, other.substr(o, r.in(1, 100)));
            }
            break;
        default:
            if (r.chance(0.3)) b.resize(pos);
        }
        if (b.size() > 20000) b.resize(20000);
    }
}

Bytes utf16(const Bytes &s, int width, bool big)
{
    Bytes w;
    for (char ch : s) {
        auto u = static_cast<unsigned char>(ch);
        Bytes x;
        le(x, u, width);
        if (big) x = Bytes(x.rbegin(), x.rend());
        w += x;
    }
    return w;
}

Bytes parquet_like(Rng &r)
{
    Bytes b;
    for (std::size_t i = r.in(1, 3); i-- > 0;) {
        b += "PAR1";
        b += Bytes(r.below(60), 'x');
        Bytes meta = "\x15" + Bytes(r.in(8, 40), 'm') + Bytes(1, '\0');
        b += meta;
        le(b, r.chance(0.8) ? meta.size() : r.next(), 4);
        b += "PAR1";
    }
    return b;
}

const std::vector<std::string> &encodings()
{
    static const std::vector<std::string> v{"UTF-8", "UTF-16", "UTF-16LE", "UTF-16BE", "UTF-32", "UTF-32LE", "UTF-32BE", "UTF-7", "SHIFT_JIS", "GB18030", "ISO-2022-JP", "EUC-KR", "BIG5", "LATIN1", "CP1252", "ASCII", "UCS-2", "UCS-4", "no-such-encoding", ""};
    return v;
}

Csv_params random_csv(Rng &r)
{
    Csv_params c;
    auto types = {Data_type::size, Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64, Data_type::string};
    if (r.chance(0.4))
        c.header_row_index = std::nullopt;
    else if (r.chance(0.3))
        c.header_row_index = r.below(4);
    c.has_single_header = r.chance(0.3);
    c.dedupe_column_names = r.chance(0.7);
    if (r.chance(0.15))
        for (std::size_t i = r.in(1, 6); i-- > 0;) c.column_names.push_back(r.chance(0.3) ? "x" : fmt::format("n{}", i));
    if (r.chance(0.1)) c.name_prefix = "p";
    if (r.chance(0.1)) c.use_columns = {"n0", "1", "id", "p1"};
    if (r.chance(0.15)) c.use_columns_by_index = {r.below(4), r.below(4), r.below(1000)};
    if (r.chance(0.4)) c.default_data_type = r.pick(types);
    if (r.chance(0.15)) c.column_types[r.pick<std::string>({"1", "2", "f", "id", "none"})] = r.pick(types);
    if (r.chance(0.2)) c.column_types_by_index[r.below(5)] = r.pick(types);
    if (r.chance(0.2)) c.delimiter = r.pick({';', '\t', ' ', '"', '\n', '\r', '\0', '\xff'});
    if (r.chance(0.1)) c.quote_char = r.pick({'\'', ',', '\0', '\n'});
    if (r.chance(0.2)) c.comment_char = r.pick({'#', '\n', '"', ','});
    c.allow_quoted_new_lines = r.chance(0.5);
    c.skip_blank_lines = r.chance(0.6);
    if (r.chance(0.3)) c.max_field_length = r.below(20);
    c.max_field_length_handling = static_cast<Max_field_length_handling>(r.below(3));
    if (r.chance(0.15)) c.max_line_length = r.below(100);
    if (r.chance(0.2)) c.parser_options.nan_values = {"", "na", "-"};
    c.parser_options.base = static_cast<int>(r.chance(0.8) ? r.pick({10, 10, 16, 8, 2}) : r.below(50));
    return c;
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Gen g;
    g.kind = r.pick({Kind::csv, Kind::csv, Kind::proto, Kind::proto, Kind::text, Kind::image_rec, Kind::image_file});
    g.num_rows = r.in(1, 12);
    g.num_stores = r.in(1, 3);
    g.bad = r.chance(0.3) ? 0.2 : 0.0;
    Dataset d = make_dataset(r, g);
    Gen g2 = g;
    g2.kind = r.pick(all_kinds);
    Dataset other = make_dataset(r, g2);
    // The kind of the reader may differ from that of the content.
    if (r.chance(0.08)) d.kind = r.pick(all_kinds);
    bool strange = r.chance(0.4);
    if (strange) {
        d.csv = random_csv(r);
        d.img.image_dimensions = {r.pick<std::size_t>({1, 3, 4, 2, 0}), r.in(1, 6), r.in(1, 6)};
        if (r.chance(0.1)) d.img.image_dimensions.resize(r.below(4));
        if (r.chance(0.5)) d.img.resize = r.pick<std::size_t>({0, 1, 2, 5, 9, 1000});
        d.img.to_rgb = r.chance(0.5);
        if (r.chance(0.1)) d.img.image_frame = r.chance(0.5) ? Image_frame::recordio : Image_frame::none;
    }
    int transform = static_cast<int>(r.below(8));  // 0: gzip, 1: other encoding
    if (transform == 1 && r.chance(0.8)) d.csv.encoding = Text_encoding{r.pick(encodings())};
    Data_reader_params p;
    p.batch_size = r.chance(0.03) ? r.pick<std::size_t>({0, 1U << 20U, ~std::size_t{0}, ~std::size_t{0} / 2 + 1, std::size_t{1} << 60U}) : r.in(1, 6);
    p.num_prefetched_examples = r.below(4);
    p.num_parallel_reads = r.below(4);
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(r.chance(0.02) ? 7 : 5));
    p.last_example_handling = static_cast<Last_example_handling>(r.below(5));
    p.warn_bad_instances = r.chance(0.3);
    if (r.chance(0.1)) {
        p.shuffle_instances = true;
        p.shuffle_window = r.below(5);
    }
    if (r.chance(0.1)) {
        p.num_shards = r.below(4);
        p.shard_index = r.below(4);
    }
    if (r.chance(0.1)) p.sample_ratio = r.pick<float>({0.0F, 0.5F, 1.0F, -1.0F, std::numeric_limits<float>::quiet_NaN(), 1e30F});
    if (r.chance(0.1)) p.num_instances_to_skip = r.chance(0.1) ? ~std::size_t{0} : r.below(5);
    if (r.chance(0.1)) p.num_instances_to_read = r.chance(0.1) ? ~std::size_t{0} : r.below(5);
    std::string tune = Tune::randomize(r);
    if (r.chance(0.5)) Tune::cut_off(1);
    std::string deliveries;
    Bytes all;
    for (std::size_t i = 0; i < d.contents.size(); i++) {
        Bytes b = r.chance(0.03) ? Bytes{} : d.contents[i];
        if (r.chance(0.04)) {
            b.clear();
            for (std::size_t k = r.below(200); k-- > 0;) b.push_back(static_cast<char>(r.below(256)));
        }
        Bytes o = r.pick(other.contents);
        bool mutate_first = transform >= 2 || r.chance(0.5);
        if (mutate_first && r.chance(0.85)) mutate(r, b, o);
        if (d.kind == Kind::proto && r.chance(0.3)) {
            // Intact frames around mutated records.
            b.clear();
            for (auto &row : d.stores[i]) {
                Bytes x = row.payload;
                if (r.chance(0.5)) mutate(r, x, o);
                b += recordio(x);
            }
        }
        if (d.kind == Kind::image_rec && r.chance(0.3)) {
            b.clear();
            for (auto &row : d.stores[i]) {
                Bytes x = row.payload;
                if (r.chance(0.4)) x.resize(r.below(x.size() + 1));
                else if (r.chance(0.3)) mutate(r, x, o);
                b += recordio(x);
            }
        }
        if (transform == 1) {
            int w = r.chance(0.5) ? 2 : 4;
            b = utf16(b, w, r.chance(0.5));
        }
        bool gz = transform == 0;
        if (gz) b = deflate_bytes(b, static_cast<int>(r.below(10)), static_cast<int>(r.below(4)), 8, r.chance(0.9) ? 31 : r.pick({15, -15}));
        if (!mutate_first) mutate(r, b, o);
        all += b;
        auto plan = make_plan(b, fmt::format("store-{}", i));
        plan->seed = r.next();
        plan->max_read = r.chance(0.4) ? 0 : r.in(1, 40);
        plan->random_reads = true;
        switch (gz ? 4 : r.below(5)) {
        case 0:
            p.dataset.push_back(make_store(plan));
            deliveries += 's';
            break;
        case 1:
            plan->zero_copy = plan->seekable = true;
            p.dataset.push_back(make_store(plan));
            deliveries += 'z';
            break;
        case 2:
        case 3: {
            std::string path = fmt::format("{}/c03-{}", c.scratch, i);
            write_file(path, b);
            bool map = r.chance(0.6);
            p.dataset.push_back(make_intrusive<File>(path, map));
            deliveries += map ? 'm' : 'f';
            break;
        }
        default:
            p.dataset.push_back(memory_store(b, gz ? Compression::gzip : Compression::none));
            deliveries += gz ? 'g' : 'i';
        }
    }
    c.describe(fmt::format("{} rows={} stores={} batch={} prefetch={} parallel={} bad={} last={} strange={} transform={} encoding={} delivery={} {} content={}", kind_name(d.kind), d.size(), d.contents.size(), p.batch_size, p.num_prefetched_examples, p.num_parallel_reads, static_cast<int>(p.bad_example_handling),
        static_cast<int>(p.last_example_handling), strange, transform, d.csv.encoding ? std::string{d.csv.encoding->name()} : "-", deliveries, tune, quote(all, 1500)));
    c.sig = fmt::format("{:x}", hash_str(c.description()) ^ hash_str(all));
    Log_capture log;
    c.nontrivial = false;
    if (r.chance(0.05)) {
        // A Parquet stream
        Bytes b = parquet_like(r);
        if (r.chance(0.8)) mutate(r, b, all);
        auto plan = make_plan(b);
        plan->seekable = r.chance(0.8);
        plan->zero_copy = plan->seekable && r.chance(0.3);
        plan->max_read = r.chance(0.5) ? 0 : r.in(1, 9);
        c.nontrivial = true;
        std::size_t total = 0;
        try {
            auto rp = make_intrusive<mlio::detail::Parquet_record_reader>(make_store(plan)->open_read());
            auto &rr = *rp;
            for (int i = 0; i < 50; i++) {
                auto rec = r.chance(0.2) ? rr.peek_record() : rr.read_record();
                if (!rec) break;
                for (std::byte x : rec->payload()) total += static_cast<std::size_t>(x);
            }
        }
        catch (const Violation &) {
            throw;
        }
        catch (const std::exception &) {
            c.count("exceptions");
        }
        c.observe("parquet outcomes", total);
        return;
    }
    std::vector<Intrusive_ptr<Example>> kept;
    std::size_t rows = 0, errors = 0;
    try {
        auto rd = d.open(p);
        c.nontrivial = true;
        std::size_t epochs = r.in(1, 2);
        for (std::size_t e = 0; e < epochs; e++) {
            if (e != 0) rd->reset();
            std::size_t limit = r.chance(0.2) ? r.below(4) : 200;
            for (std::size_t i = 0; i < limit; i++) {
                try {
                    auto ex = r.chance(0.1) ? rd->peek_example() : rd->read_example();
                    if (ex == nullptr) break;
                    if (ex->features().empty()) continue;
                    rows += example_rows(*ex).size();
                    c.count("examples");
                    if (r.chance(0.2)) kept.push_back(ex);
                }
                catch (const Violation &) {
                    throw;
                }
                catch (const std::exception &x) {
                    c.observe("kinds of exceptions", hash_str(exc_type(x) + Bytes(x.what()).substr(0, 30)));
                    c.count("exceptions");
                    if (++errors > 3) break;
                }
            }
        }
        dump_schema(rd->read_schema().get());
        rd->num_bytes_read();
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &x) {
        c.observe("kinds of exceptions", hash_str(exc_type(x) + Bytes(x.what()).substr(0, 30)));
        c.count("exceptions");
    }
    for (auto &ex : kept) example_rows(*ex);
    c.count("rows", rows);
}
}  // namespace V
