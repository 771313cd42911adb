#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C16";
const char *const rule =
    "Each case writes records (payloads of all alignments, with embedded RecordIO magic numbers, small and large), whole or split into parts that may span data stores, delivers them in drawn read and "
    "chunk sizes, and compares what is read with what was written; in the corruption cases one fault (magic number, kind, length, order of parts, truncation at any offset) is planted and an exception "
    "after an unaltered prefix is required. Non-trivial: at least two records or a fault. Distinct by content.";
std::uint64_t num_cases(bool thorough) { return thorough ? 250000 : 24000; }

namespace {

struct Rec {
    Bytes payload;
    std::string dump;
};

// A protobuf record whose values are its payload.
Rec make_rec(Rng &r, bool first)
{
    Pb_value v;
    v.type = r.chance(0.0) ? Pt::f64 : Pt::i32;
    v.shape = {std::uint64_t{1} << 30};
    std::size_t n = r.chance(0.05) ? r.in(100, 3000) : r.below(12);
    if (first && n == 0) n = 1;
    std::string d;
    for (std::size_t i = 0; i < n; i++) {
        std::uint64_t k = r.below(1U << 30);
        auto x = static_cast<std::int32_t>(r.chance(0.1) ? 0xced7230aU : r.next() >> (32 + r.below(31)));
        v.keys.push_back(k);
        v.values.push_back(x);
        d += fmt::format("({}):{} ", k, x);
    }
    Rec rec;
    rec.payload = pb_record({{"v", v}}, {});
    // A field the reader does not look at moves the size to any alignment.
    std::string filler;
    std::size_t m = r.below(9);
    for (std::size_t i = 0; i < m; i++) filler += r.chance(0.2) ? std::string("\x0a\x23\xd7\xce", 4) : std::string(1, static_cast<char>('a' + r.below(26)));
    // Field 4 holds a string that must be valid UTF-8; field 15 is unknown and may hold anything.
    Pb u;
    u.bytes(15, filler);
    if (r.chance(0.7)) rec.payload += u.b;
    rec.dump = "|\"v\"=" + d;
    return rec;
}

struct Part {
    Bytes bytes;
    unsigned kind{};
    std::size_t rec{};
    std::size_t payload{};  // size
};

void put32(Bytes &b, std::size_t at, std::uint32_t v)
{
    for (int i = 0; i < 4; i++) b[at + static_cast<std::size_t>(i)] = static_cast<char>(v >> (8 * i) & 0xff);
}

}  // namespace

// Payloads of the largest size that a header can express, in a file of more than 4 GiB.
static void huge(Case &c)
{
    Rng &r = c.rng;
    std::string path = c.scratch + "/huge";
    std::vector<std::pair<std::size_t, Bytes>> pieces;
    std::size_t pos = 0, bytes = 0;
    std::vector<std::string> want;
    auto good = [&] {
        Rec x = make_rec(r, true);
        Bytes b = recordio(x.payload);
        pieces.emplace_back(pos, b);
        pos += b.size();
        bytes += x.payload.size();
        want.push_back(x.dump);
    };
    good();
    for (int i = 0; i < 9; i++) {
        std::size_t size = 0x1fffffffU - (i == 0 ? 0 : r.below(1000));
        Bytes h = recordio("");
        put32(h, 4, static_cast<std::uint32_t>(size));
        pieces.emplace_back(pos, h);
        pos += 8 + (size + 3) / 4 * 4;
        bytes += size;
        if (i % 4 == 3) good();
    }
    good();
    c.describe(fmt::format("huge file of {} bytes", pos));
    if (!write_sparse_file(path, pos, pieces)) {
        c.count("huge files not possible");
        return;
    }
    Data_reader_params p;
    p.dataset.push_back(make_intrusive<File>(path, true));
    p.batch_size = r.in(1, 3);
    p.bad_example_handling = Bad_example_handling::pad;
    auto rd = make_intrusive<Recordio_protobuf_reader>(p);
    auto res = read_all(*rd);
    CHECK(res.error.empty(), "unexpected-error", "{}: {}", res.error, res.error_text);
    auto diff = first_difference(want, res.rows);
    CHECK(diff.empty(), "rows", "{}", diff);
    CHECK(rd->num_bytes_read() == bytes, "payload-size", "the payloads have {} bytes instead of {}", rd->num_bytes_read(), bytes);
    ::unlink(path.c_str());
    c.count("huge files");
    c.nontrivial = true;
}

void run_case(Case &c)
{
    Rng &r = c.rng;
    if (c.index == 0) return huge(c);
    std::size_t n = r.chance(0.05) ? 1 : r.in(2, 15);
    double split = r.chance(0.5) ? 0.0 : 0.4;
    std::vector<Rec> recs;
    std::vector<Part> parts;
    for (std::size_t i = 0; i < n; i++) {
        recs.push_back(make_rec(r, i == 0));
        auto &p = recs.back().payload;
        if (r.chance(split)) {
            // Parts of any size, empty ones included.
            std::size_t k = r.chance(0.05) ? r.in(6, 300) : r.in(2, 5);
            std::vector<std::size_t> cut{0, p.size()};
            for (std::size_t j = 1; j < k; j++) cut.push_back(r.below(p.size() + 1));
            std::sort(cut.begin(), cut.end());
            for (std::size_t j = 0; j < k; j++) {
                unsigned kind = j == 0 ? 1 : j + 1 == k ? 3 : 2;
                parts.push_back({recordio(p.substr(cut[j], cut[j + 1] - cut[j]), kind), kind, i, cut[j + 1] - cut[j]});
            }
        }
        else
            parts.push_back({recordio(p), 0, i, p.size()});
    }
    // One fault.
    std::string fault = "none";
    std::size_t good = n;      // records before the fault
    bool must_fail = false, shorter = false;
    std::size_t cut_bytes = 0;
    if (r.chance(0.55)) {
        std::size_t at = r.below(parts.size());
        Part &p = parts[at];
        good = p.rec;
        must_fail = true;
        switch (r.below(8)) {
        case 0: {
            std::size_t bit = r.below(32);
            p.bytes[bit / 8] = static_cast<char>(p.bytes[bit / 8] ^ (1 << bit % 8));
            fault = fmt::format("magic number of part {}", at);
            break;
        }
        case 1:
            put32(p.bytes, 4, static_cast<std::uint32_t>(r.in(4, 7)) << 29U | static_cast<std::uint32_t>(p.payload));
            fault = fmt::format("unknown kind of part {}", at);
            break;
        case 2: {
            // Another kind.
            unsigned k = (p.kind + static_cast<unsigned>(r.in(1, 3))) % 4;
            put32(p.bytes, 4, k << 29U | static_cast<std::uint32_t>(p.payload));
            fault = fmt::format("kind {} instead of {} of part {}", k, p.kind, at);
            // These two look like a complete, shorter record until the next part is read.
            shorter = (p.kind == 2 && k == 3) || (p.kind == 1 && k == 0);
            break;
        }
        case 3:
            // A part is missing.
            if (p.kind == 0 || p.kind == 2) {
                fault = "none";
                must_fail = false;
                good = n;
                break;
            }
            fault = fmt::format("missing part {} of kind {}", at, p.kind);
            p.bytes.clear();
            break;
        case 4: {
            // The length runs beyond the end.
            std::size_t rest = 0;
            for (std::size_t j = at; j < parts.size(); j++) rest += parts[j].bytes.size();
            put32(p.bytes, 4, p.kind << 29U | static_cast<std::uint32_t>(r.chance(0.3) ? 0x1fffffff : rest + r.below(100)));
            fault = fmt::format("length of part {} beyond the end", at);
            break;
        }
        default: {
            // The data ends early.
            parts.resize(at + 1);
            std::size_t used = 8 + p.payload;
            cut_bytes = r.below(p.bytes.size() + 1);
            fault = fmt::format("part {} ends after {} of {} bytes", at, cut_bytes, p.bytes.size());
            bool boundary = cut_bytes == 0 && (p.kind == 0 || p.kind == 1);
            bool complete = (p.kind == 0 || p.kind == 3) && cut_bytes >= used;
            if (cut_bytes == p.bytes.size() && (p.kind == 0 || p.kind == 3)) {
                good = p.rec + 1;
                must_fail = false;
            }
            else if (boundary)
                must_fail = false;
            else if (complete) {
                // Only the alignment bytes are missing: both results are fine.
                fault += " (alignment)";
                must_fail = false;
                good = p.rec + 1;
            }
            p.bytes.resize(cut_bytes);
            break;
        }
        }
    }
    bool alignment = fault.find("(alignment)") != std::string::npos;
    // The stores; a split record may span several.
    std::size_t ns = r.chance(0.5) ? 1 : r.in(2, 4);
    std::vector<Bytes> texts(ns);
    std::vector<std::size_t> where(parts.size());
    bool beyond = fault.find("beyond") != std::string::npos || alignment;
    for (auto &w : where) w = beyond ? 0 : r.below(ns);
    std::sort(where.begin(), where.end());
    for (std::size_t i = 0; i < parts.size(); i++) texts[where[i]] += parts[i].bytes;
    Data_reader_params p;
    p.batch_size = r.chance(0.5) ? 1 : r.in(1, 4);
    p.num_prefetched_examples = r.below(3);
    Tune tune;
    std::string knobs = Tune::randomize(r);
    bool streams = r.chance(0.6);
    for (auto &t : texts) {
        if (streams) {
            auto plan = make_plan(t);
            plan->max_read = r.chance(0.2) ? 1 : r.in(1, 50);
            plan->random_reads = true;
            plan->seed = r.next();
            p.dataset.push_back(make_store(plan));
        }
        else
            p.dataset.push_back(memory_store(t));
    }
    std::string sizes;
    for (auto &x : parts) sizes += fmt::format("{}:{} ", x.kind, x.payload);
    c.describe(fmt::format("records={} parts={} fault={} stores={} batch={} streams={} {}", n, sizes, fault, ns, p.batch_size, streams, knobs));
    auto rd = make_intrusive<Recordio_protobuf_reader>(p);
    // A fault that is met while the schema is determined must not be forgotten.
    std::size_t asks = r.chance(0.25) ? r.in(1, 2) : 0;
    for (std::size_t k = 0; k < asks; k++) {
        try {
            rd->read_schema();
        }
        catch (const std::exception &) {
            c.count("faults met by the schema");
        }
    }
    auto res = read_all(*rd);
    std::vector<std::string> want;
    std::size_t bytes = 0;
    for (std::size_t i = 0; i < good; i++) {
        want.push_back(recs[i].dump);
        bytes += recs[i].payload.size();
    }
    if (alignment) {
        if (!res.error.empty()) want.resize(std::min(want.size(), res.rows.size()));
    }
    else if (must_fail) {
        CHECK(!res.error.empty(), "no-error", "{} rows have been read without an exception", res.rows.size());
        if (shorter && res.rows.size() == want.size() + 1) res.rows.pop_back();
        CHECK(res.rows.size() <= want.size(), "altered-payload", "{} rows have been read, but only {} records come before the fault", res.rows.size(), want.size());
        want.resize(res.rows.size());
    }
    else {
        CHECK(res.error.empty(), "unexpected-error", "{}: {}", res.error, res.error_text);
        if (p.batch_size > 0) CHECK(rd->num_bytes_read() == bytes, "payload-size", "the payloads have {} bytes instead of {}", rd->num_bytes_read(), bytes);
    }
    auto diff = first_difference(want, res.rows);
    CHECK(diff.empty(), "rows", "{}", diff);
    c.count("records", n);
    c.count(must_fail ? "faulty streams" : "intact streams");
    c.nontrivial = n > 1 || must_fail;
}
}  // namespace V
