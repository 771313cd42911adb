#include <algorithm>

#include "csvref.h"
namespace V {
using namespace mlio;
const char *const property_id = "C19";
const char *const rule =
    "Each case draws texts (empty lines, all terminators mixed, a missing last terminator, very long lines, NUL and arbitrary bytes, several stores, empty ones included), delivers them through "
    "memory, files, gzip and short reads with drawn chunk sizes and compares the strings of all examples with the lines cut by a reference. Non-trivial: at least two lines. Distinct by content and delivery.";
std::uint64_t num_cases(bool thorough) { return thorough ? 300000 : 18000; }

namespace {

Bytes text(Rng &r)
{
    Bytes b;
    std::size_t n = r.chance(0.1) ? r.below(2) : r.chance(0.05) ? r.in(100, 2000) : r.below(20);
    unsigned eol = static_cast<unsigned>(r.below(5)), body = static_cast<unsigned>(r.below(4));
    double empty = r.chance(0.5) ? 0.4 : 0.1;
    std::size_t max = r.chance(0.05) ? 20000 : r.chance(0.1) ? 1 : 40;
    if (n > 100) max = 30;
    if (max == 20000) n = std::min<std::size_t>(n, 3);
    for (std::size_t i = 0; i < n; i++) {
        std::size_t len = r.chance(empty) ? 0 : r.below(max + 1);
        for (std::size_t k = 0; k < len; k++) {
            char x{};
            switch (body) {
            case 0:
                x = static_cast<char>('a' + r.below(26));
                break;
            case 1:
                x = static_cast<char>(r.next());
                break;
            case 2:
                x = r.pick<char>({' ', '\t', '\0', '"', ',', '#', '\v', '\f', 'x', '\x1a', '\x85'});
                break;
            default: {
                static const char *const s[] = {"\xe2\x82\xac", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xe2\x80\xa8", "\xc2\x85", "y"};
                b += s[r.below(6)];
                x = 'z';
                break;
            }
            }
            b += x;
        }
        switch (eol == 4 ? r.below(4) : eol) {
        case 0:
        case 3:
            b += "\n";
            break;
        case 1:
            b += "\r\n";
            break;
        default:
            b += "\r";
            break;
        }
    }
    if (!b.empty() && r.chance(0.4)) b.pop_back();
    // A byte order mark would select an encoding.
    while (!b.empty() && (static_cast<unsigned char>(b[0]) >= 0xef || b[0] == '\0')) b.erase(0, 1);
    return b;
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Tune tune;
    std::string knobs = Tune::randomize(r, true);
    Data_reader_params p;
    p.batch_size = r.chance(0.3) ? 1 : r.in(1, 10);
    p.num_prefetched_examples = r.below(4);
    p.num_parallel_reads = r.below(4);
    std::vector<std::string> want;
    std::size_t ns = r.chance(0.5) ? 1 : r.in(1, 4);
    std::string desc, all;
    for (std::size_t i = 0; i < ns; i++) {
        Bytes b = text(r);
        for (auto &l : ref_lines(b)) want.push_back("|\"value\"=" + str_value(l));
        all += b + "\x01\x02";
        unsigned how = static_cast<unsigned>(r.below(5));
        desc += fmt::format(" [{} {} bytes {}]", how, b.size(), quote(b, 200));
        switch (how) {
        case 0:
            p.dataset.push_back(memory_store(b));
            break;
        case 1:
            p.dataset.push_back(memory_store(deflate_bytes(b), Compression::gzip));
            break;
        case 2: {
            std::string path = fmt::format("{}/t{}", c.scratch, i);
            write_file(path, b);
            p.dataset.push_back(make_intrusive<File>(path, r.chance(0.5)));
            break;
        }
        default:
            auto pl = make_plan(b, fmt::format("s{}", i));
            pl->max_read = r.chance(0.4) ? 1 : r.in(1, 50);
            pl->random_reads = true;
            pl->seed = r.next();
            pl->seekable = r.chance(0.3);
            p.dataset.push_back(make_store(pl));
            break;
        }
    }
    bool inf = r.chance(0.2);
    c.describe(fmt::format("batch={} prefetch={} {}{}", p.batch_size, p.num_prefetched_examples, knobs, desc));
    c.nontrivial = want.size() >= 2;
    c.sig = fmt::format("{}|{}", hash_str(all), knobs);
    c.count("lines", want.size());
    auto rd = make_intrusive<Text_line_reader>(p);
    if (inf) rd->read_schema();
    std::size_t epochs = r.chance(0.2) ? 2 : 1;
    for (std::size_t e = 0; e < epochs; e++) {
        if (e != 0) rd->reset();
        auto res = read_all(*rd);
        CHECK(res.error.empty(), "exception", "{}: {}", res.error, res.error_text);
        CHECK(res.rows == want, "lines", "{}", first_difference(want, res.rows));
    }
    auto s = rd->read_schema();
    CHECK(s == nullptr || dump_schema(s.get()) == fmt::format("\"value\":string[{},1];", p.batch_size), "schema", "the schema is {}", dump_schema(s.get()));
    CHECK(s != nullptr || want.empty(), "schema", "there is no schema");
}
}  // namespace V
