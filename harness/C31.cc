#include <algorithm>

#include <mlio/record_readers/parquet_record_reader.h>

#include "stores.h"
namespace V {
using namespace mlio;
const char *const property_id = "C31";
const char *const rule =
    "Each case builds streams of up to six Parquet frames (magic, body, metadata, length, magic; minimal ones included) whose bodies carry decoys (magic numbers with impossible lengths, stop or "
    "header bytes), reads them through memory, files, gzip or short reads with drawn chunk sizes, peeking in between, and compares records and bytes; other cases truncate the stream, damage the "
    "magic numbers or append junk and require an exception after the complete records. Non-trivial: at least one record. Distinct by content and delivery.";
std::uint64_t num_cases(bool thorough) { return thorough ? 400000 : 40000; }

namespace {

const Bytes magic = "PAR1";
const Bytes first_bytes = "\x15\x29\x36\x49\x59\x68\x79";

Bytes le32(std::uint32_t v)
{
    Bytes b;
    for (int i = 0; i < 4; i++) b += static_cast<char>(v >> (8 * i) & 0xff);
    return b;
}

// Arbitrary bytes without the magic number.
Bytes noise(Rng &r, std::size_t n)
{
    Bytes b;
    bool hard = r.chance(0.3);
    while (b.size() < n) b += hard ? "PAR1\0\x15\x29\t"[r.below(8)] : static_cast<char>(r.next());
    for (std::size_t p = b.find(magic); p != Bytes::npos; p = b.find(magic, p)) b[p + 3] = '2';
    return b;
}

Bytes metadata(Rng &r, std::size_t n)
{
    Bytes b;
    b += first_bytes[r.chance(0.6) ? 0 : r.below(7)];
    b += noise(r, n - 2);
    b += '\0';
    return b;
}

// A frame. The metadata are always the last thing before the length.
Bytes frame(Rng &r, bool embedded)
{
    Bytes b = magic;
    std::size_t parts = r.chance(0.2) ? 0 : r.in(1, 4);
    for (std::size_t i = 0; i < parts; i++) {
        b += noise(r, r.chance(0.05) ? r.in(500, 5000) : r.below(60));
        switch (r.below(7)) {
        case 0:  // too small metadata
            b += Bytes("\x15xxxxxxxxxxxx", r.in(1, 13)) + Bytes(1, '\0') + le32(static_cast<std::uint32_t>(r.below(9))) + magic;
            break;
        case 1:  // metadata that would not fit into the file
            b += Bytes(1, '\0') + le32(static_cast<std::uint32_t>(b.size() + 1 + r.below(100) - 3)) + magic;
            break;
        case 2:
            b += Bytes(1, '\0') + le32(0xffffffffU - static_cast<std::uint32_t>(r.below(20))) + magic;
            break;
        case 3: {  // no stop field
            Bytes m = metadata(r, 20);
            m.back() = static_cast<char>(r.in(1, 255));
            b += m + le32(20) + magic;
            break;
        }
        case 4: {  // no field header
            Bytes m = metadata(r, 20);
            m[0] = r.pick<char>({'\0', '\x16', '\x14', '\x19', '\xff', 'P', '\x25'});
            b += m + le32(20) + magic;
            break;
        }
        case 5:
            b += magic;
            break;
        default:
            break;
        }
    }
    if (embedded) {
        Bytes m = metadata(r, r.in(9, 30));
        b += m + le32(static_cast<std::uint32_t>(m.size())) + magic + noise(r, r.in(1, 20));
    }
    // No byte before the metadata may complete a decoy with the metadata.
    b += "--------------------------------";
    Bytes m = metadata(r, r.chance(0.2) ? 9 : r.in(9, 200));
    if (parts == 0 && !embedded && r.chance(0.5)) b = magic;
    return b + m + le32(static_cast<std::uint32_t>(m.size())) + magic;
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Tune tune;
    std::string knobs = Tune::randomize(r, true);
    std::vector<Bytes> files;
    std::size_t n = r.chance(0.1) ? 0 : r.in(1, 6);
    bool embedded = c.index < 2 || r.chance(0.001);
    for (std::size_t i = 0; i < std::max<std::size_t>(n, embedded); i++) files.push_back(frame(r, embedded && i == 0));
    Bytes all;
    for (auto &f : files) all += f;
    // Whole records that have to be delivered, and whether an exception has to follow.
    std::size_t whole = files.size();
    bool fails = false;
    std::string what = "intact";
    if (!files.empty() && !embedded && r.chance(0.45)) {
        fails = true;
        std::size_t k = r.below(files.size()), start = 0;
        for (std::size_t i = 0; i < k; i++) start += files[i].size();
        switch (r.below(4)) {
        case 0:
        case 1: {
            std::size_t cut = r.chance(0.3) ? r.in(1, 12) : r.chance(0.3) ? files[k].size() - r.in(1, 8) : r.in(1, files[k].size() - 1);
            all.resize(start + cut);
            whole = k;
            what = fmt::format("file {} ends after {} of {} bytes", k, cut, files[k].size());
            break;
        }
        case 2:
            all[start + r.below(4)] ^= static_cast<char>(1U << r.below(8));
            whole = k;
            what = fmt::format("file {} has no magic number at its start", k);
            break;
        default: {
            Bytes junk = noise(r, r.in(1, 50));
            if (junk.substr(0, 4) == magic) junk[0] = 'Q';
            all += junk;
            what = fmt::format("{} bytes follow the last file", junk.size());
            break;
        }
        }
    }
    unsigned how = static_cast<unsigned>(r.below(5));
    Intrusive_ptr<Data_store> store;
    std::string path = c.scratch + "/p";
    switch (how) {
    case 0:
        store = memory_store(Bytes(r.below(4), 'x') + all);
        break;
    case 1:
        write_file(path, all);
        store = make_intrusive<File>(path, r.chance(0.5));
        break;
    case 2:
        store = memory_store(deflate_bytes(all), Compression::gzip);
        break;
    default:
        auto p = make_plan(all);
        p->max_read = r.chance(0.3) ? 1 : r.in(1, 100);
        p->random_reads = true;
        p->seed = r.next();
        p->seekable = r.chance(0.5);
        p->zero_copy = p->seekable && r.chance(0.5);
        store = make_store(p);
        break;
    }
    c.describe(fmt::format("files={} via={} {} embedded={} {} bytes={}", files.size(), how, what, embedded, knobs, quote(all, 400)));
    c.nontrivial = whole != 0;
    c.sig = fmt::format("{}|{}|{}", hash_str(all), how, knobs);
    Intrusive_ptr<Input_stream> stream = store->open_read();
    if (how == 0) stream = make_intrusive<Memory_input_stream>(make_slice(Bytes(3, 'x') + all).subslice(3));
    auto rd = make_intrusive<mlio::detail::Parquet_record_reader>(std::move(stream));
    if (r.chance(0.2)) rd->set_record_size_hint(r.in(1, 5000));
    std::vector<Record> got;
    bool thrown = false;
    std::string error;
    try {
        for (;;) {
            if (r.chance(0.2)) {
                auto x = rd->peek_record();
                auto y = rd->peek_record();
                CHECK(x.has_value() == y.has_value() && (!x || x->payload().data() == y->payload().data()), "peek", "two peeks differ");
            }
            auto x = rd->read_record();
            if (!x) break;
            got.push_back(*x);
            c.count("records");
        }
        CHECK(!rd->read_record(), "after-end", "a record after the end");
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &e) {
        thrown = true;
        error = exc_type(e) + ": " + e.what();
    }
    if (embedded) {
        bool ok = !got.empty() && slice_bytes(got[0].payload()) == files[0];
        CHECK(ok, "embedded-footer", "a Parquet file whose data contain what looks like a complete footer is cut there");
        return;
    }
    for (std::size_t i = 0; i < got.size(); i++) {
        CHECK(i < whole, "shortened", "{}: record {} has been delivered", what, i);
        CHECK(slice_bytes(got[i].payload()) == files[i], "bytes", "{}: record {} has {} bytes instead of {}, or different ones", what, i, got[i].payload().size(), files[i].size());
        CHECK(got[i].kind() == Record_kind::complete, "kind", "record {} is not complete", i);
    }
    if (fails) {
        CHECK(thrown, "no-error", "{}: the end has been reported", what);
        CHECK(got.size() == whole, "missing", "{}: {} of {} records before the exception", what, got.size(), whole);
        c.count("exceptions");
    }
    else {
        CHECK(!thrown, "unexpected-error", "{}", error);
        CHECK(got.size() == files.size(), "missing", "{} of {} records", got.size(), files.size());
    }
}
}  // namespace V
