#include <sys/mman.h>
#include <zlib.h>

#include <algorithm>

#include "stores.h"
namespace V {
using namespace mlio;
const char *const property_id = "C18";
const char *const rule =
    "Each case compresses drawn content with zlib (all levels, strategies, memory levels, flush modes, optional header fields, gzip or zlib framing, several members, empty ones among them), delivers "
    "it through memory, files and short-read streams and reads it with drawn sizes (a few with a buffer beyond 4 GiB); the output must be the content. Other cases truncate it anywhere, damage the "
    "trailer, flip bits, or feed plain data and require an exception (or, for harmless flips, the unchanged content); further ones check the inference from file names. Non-trivial: the content is "
    "not empty. Distinct by the compressed bytes and delivery.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 6000; }

namespace {

Bytes content(Rng &r)
{
    std::size_t n = r.chance(0.1) ? r.below(4) : r.chance(0.05) ? r.in(60000, 400000) : r.chance(0.2) ? r.in(1000, 9000) : r.below(400);
    Bytes b;
    unsigned how = static_cast<unsigned>(r.below(4));
    while (b.size() < n) {
        if (how == 0)
            b += static_cast<char>(r.next());
        else if (how == 1)
            b += static_cast<char>('a' + r.below(3));
        else if (how == 2)
            b.append(r.in(1, 5000), static_cast<char>(r.next()));
        else if (b.size() > 10 && r.chance(0.1))
            b += b.substr(r.below(b.size()), r.in(1, 300));
        else
            b += static_cast<char>(r.below(64) + 32);
    }
    b.resize(n);
    return b;
}

Bytes member(Rng &r, const Bytes &b, int bits)
{
    z_stream z{};
    int level = static_cast<int>(r.below(11)) - 1, strategy = static_cast<int>(r.below(5)), mem = static_cast<int>(r.in(1, 9));
    if (deflateInit2(&z, level, Z_DEFLATED, bits, mem, strategy) != Z_OK) throw std::runtime_error{"deflateInit2"};
    gz_header h{};
    Bytes name = "file name", extra(r.below(300), 'e'), comment = "a comment";
    if (bits > 16 && r.chance(0.4)) {
        h.time = static_cast<uLong>(r.below(1U << 31));
        h.os = static_cast<int>(r.below(255));
        h.text = static_cast<int>(r.below(2));
        if (r.chance(0.5)) h.name = reinterpret_cast<Bytef *>(name.data());
        if (r.chance(0.5)) {
            h.extra = reinterpret_cast<Bytef *>(extra.data());
            h.extra_len = static_cast<uInt>(extra.size());
        }
        if (r.chance(0.5)) h.comment = reinterpret_cast<Bytef *>(comment.data());
        h.hcrc = static_cast<int>(r.below(2));
        deflateSetHeader(&z, &h);
    }
    std::size_t flush_every = r.chance(0.3) ? r.in(1, 500) : 0;
    Bytes out;
    char buf[4096];
    std::size_t pos = 0;
    for (;;) {
        std::size_t n = b.size() - pos;
        int flush = Z_FINISH;
        if (flush_every != 0 && n > flush_every) {
            n = flush_every;
            flush = r.pick({Z_SYNC_FLUSH, Z_FULL_FLUSH, Z_PARTIAL_FLUSH, Z_BLOCK});
        }
        z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(b.data() + pos));
        z.avail_in = static_cast<uInt>(n);
        pos += n;
        int e{};
        do {
            z.next_out = reinterpret_cast<Bytef *>(buf);
            z.avail_out = sizeof(buf);
            e = deflate(&z, flush);
            out.append(buf, sizeof(buf) - z.avail_out);
        } while (z.avail_out == 0);
        if (e == Z_STREAM_END) break;
    }
    deflateEnd(&z);
    return out;
}

struct Read {
    Bytes out;
    bool failed = false;
    std::string error;
};

Read read_stream(Case &c, Rng &r, Input_stream &s, bool huge)
{
    Read x;
    std::size_t max = r.chance(0.3) ? r.in(1, 4) : r.chance(0.3) ? r.in(1, 100) : r.in(1, 100000);
    std::vector<std::byte> buf(max);
    Mutable_memory_span big{};
    void *map = nullptr;
    std::size_t map_size = (std::size_t{1} << 32U) + r.below(3) * 17;
    if (huge) {
        map = mmap(nullptr, map_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (map == MAP_FAILED)
            map = nullptr;
        else
            c.count("reads into a buffer beyond 4 GiB");
    }
    try {
        for (;;) {
            std::size_t n{};
            const std::byte *p = buf.data();
            std::size_t want = r.in(1, max);
            Memory_slice slice;
            if (map != nullptr) {
                want = map_size;
                p = static_cast<std::byte *>(map);
                n = s.read(Mutable_memory_span{static_cast<std::byte *>(map), map_size});
                CHECK(n < 100000000, "read-size", "a read reports {} bytes", n);
            }
            else if (r.chance(0.3)) {
                slice = s.read(want);
                p = slice.data();
                n = slice.size();
            }
            else
                n = s.read(Mutable_memory_span{buf.data(), want});
            CHECK(n <= want, "read-size", "a read of {} bytes returned {}", want, n);
            c.count("reads");
            if (n == 0) break;
            x.out.append(reinterpret_cast<const char *>(p), n);
        }
        CHECK(s.read(Mutable_memory_span{buf.data(), max}) == 0, "after-end", "a read after the end returned data");
    }
    catch (const Violation &) {
        if (map != nullptr) munmap(map, map_size);
        throw;
    }
    catch (const std::exception &e) {
        x.failed = true;
        x.error = exc_type(e) + ": " + e.what();
    }
    if (map != nullptr) munmap(map, map_size);
    return x;
}

void inference(Case &c)
{
    Rng &r = c.rng;
    Bytes b = content(r), z = deflate_bytes(b);
    std::string name = r.pick<std::string>({"a.gz", "a.b.gz", ".gz", "a.gzip", "a.gz.txt", "agz", "gz", "a.csv", "a", "x.gz.d/plain", "a.bz2", "a.zip", "bz2", "a.gz1", "a..gz", "a.zip.gz", "a.gz.zip", "a.xz", "a.gx", "a.xx2", "a.bx2", "a.bzx", "a.zipx", "a.xip", "a.zxp", "a.zix", "a.tgz", "a.GZ", "a.gz ", "a_gz", "a_bz2", "b.z"});
    bool map = r.chance(0.5);
    auto comp = r.pick({Compression::infer, Compression::infer, Compression::none, Compression::gzip, Compression::bzip2});
    bool packed = r.chance(0.6);
    std::string path = c.scratch + "/" + name;
    c.describe(fmt::format("file name {} compression={} content-compressed={} mapped={}", name, static_cast<int>(comp), packed, map));
    c.sig = fmt::format("{}|{}|{}|{}|{}", name, static_cast<int>(comp), packed, map, hash_str(b));
    c.nontrivial = !b.empty();
    c.count("file names");
    if (name.find('/') != std::string::npos) {
        int e = system(("mkdir -p '" + c.scratch + "/x.gz.d'").c_str());
        CHECK(e == 0, "harness", "mkdir failed");
    }
    write_file(path, packed ? z : b);
    auto ends = [&](const std::string &x) { return name.size() >= x.size() && name.substr(name.size() - x.size()) == x; };
    auto eff = comp;
    if (comp == Compression::infer) eff = ends(".gz") ? Compression::gzip : ends(".bz2") ? Compression::bzip2 : ends(".zip") ? Compression::zip : Compression::none;
    Read got;
    try {
        auto store = make_intrusive<File>(path, map, comp);
        auto s = store->open_read();
        got = read_stream(c, r, *s, false);
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &e) {
        got.failed = true;
        got.error = e.what();
    }
    if (eff == Compression::none) {
        CHECK(!got.failed, "not-compressed", "{}: {}", name, got.error);
        CHECK(got.out == (packed ? z : b), "not-compressed", "{}: {} bytes instead of {}", name, got.out.size(), (packed ? z : b).size());
    }
    else if (eff == Compression::gzip) {
        if (packed) {
            CHECK(!got.failed, "inflate-error", "{}: {}", name, got.error);
            CHECK(got.out == b, "content", "{}: {} bytes instead of {}", name, got.out.size(), b.size());
        }
        else if (!b.empty())
            CHECK(got.failed, "no-error", "{}: plain content has been accepted as gzip", name);
    }
    else
        CHECK(got.failed, "no-error", "{}: the unsupported compression yields data", name);
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    if (r.chance(0.1)) return inference(c);
    Tune tune;
    std::string knobs = Tune::randomize(r, true);
    Bytes want, z;
    std::vector<std::size_t> ends;   // of the members in z
    std::vector<std::size_t> starts;
    std::vector<std::size_t> wants;  // the size of the output at the end of each member
    std::size_t members = r.chance(0.5) ? 1 : r.in(1, 5);
    bool zlib_framing = r.chance(0.1);
    for (std::size_t i = 0; i < members; i++) {
        Bytes b = r.chance(0.25) && members > 1 ? Bytes{} : content(r);
        starts.push_back(z.size());
        z += member(r, b, zlib_framing ? static_cast<int>(r.in(9, 15)) : static_cast<int>(r.in(9, 15)) + 16);
        want += b;
        ends.push_back(z.size());
        wants.push_back(want.size());
    }
    Bytes good = z;
    enum class Damage { none, cut, trailer, flip, plain } damage = Damage::none;
    std::string what = "intact";
    Bytes expect = want;
    bool must_fail = false;
    if (r.chance(0.5)) {
        switch (r.below(4)) {
        case 0:
        case 1: {
            damage = Damage::cut;
            std::size_t m = r.below(members), lo = starts[m], hi = ends[m];
            // Cuts inside of the header and the trailer are of particular interest.
            std::size_t at = r.chance(0.3) ? hi - r.in(1, std::min<std::size_t>(9, hi - lo - 1)) : r.chance(0.3) ? lo + r.in(1, std::min<std::size_t>(12, hi - lo - 1)) : r.in(lo + 1, hi - 1);
            at = std::max(at, lo + 1);
            z.resize(at);
            expect = want;
            must_fail = true;
            what = fmt::format("cut at {} of {}", at, good.size());
            break;
        }
        case 2: {
            damage = Damage::trailer;
            std::size_t m = r.below(members), n = zlib_framing ? 4 : 8, at = ends[m] - 1 - r.below(n);
            z[at] ^= static_cast<char>(1U << r.below(8));
            must_fail = true;
            what = fmt::format("bit flip in the trailer of member {}", m);
            break;
        }
        default:
            damage = Damage::flip;
            std::size_t n = r.in(1, 3);
            for (std::size_t i = 0; i < n; i++) z[r.below(z.size())] ^= static_cast<char>(1U << r.below(8));
            what = "bit flips";
            break;
        }
    }
    bool huge = r.chance(0.004);
    unsigned how = static_cast<unsigned>(r.below(4));
    c.describe(fmt::format("members={} content={} bytes compressed={} {} zlib={} via={} huge={} {}", members, want.size(), good.size(), what, zlib_framing, how, huge, knobs));
    c.sig = fmt::format("{}|{}|{}", hash_str(z), how, knobs);
    c.nontrivial = !want.empty();
    Intrusive_ptr<Data_store> store;
    Intrusive_ptr<Input_stream> s;
    std::string path = c.scratch + "/z.gz";
    switch (how) {
    case 0:
        store = memory_store(z, Compression::gzip);
        break;
    case 1:
    case 2:
        write_file(path, z);
        store = make_intrusive<File>(path, how == 1);
        break;
    default:
        auto p = make_plan(z);
        p->max_read = r.chance(0.4) ? 1 : r.in(1, 40);
        p->random_reads = true;
        p->seed = r.next();
        s = make_inflate_stream(make_store(p)->open_read(), Compression::gzip);
        break;
    }
    if (!s) s = store->open_read();
    Read got = read_stream(c, r, *s, huge);
    c.count(fmt::format("{} ({})", damage == Damage::none ? "intact" : damage == Damage::cut ? "truncated" : damage == Damage::trailer ? "damaged trailers" : "bit flips", got.failed ? "exception" : "content"));
    if (damage == Damage::none) {
        CHECK(!got.failed, "inflate-error", "{}", got.error);
        CHECK(got.out == want, "content", "{} bytes instead of {}, or different ones", got.out.size(), want.size());
        return;
    }
    if (must_fail) {
        CHECK(got.failed, "no-error", "{}: the end has been reported after {} of {} bytes", what, got.out.size(), want.size());
        CHECK(want.compare(0, got.out.size(), got.out) == 0, "content", "{}: wrong data before the exception", what);
    }
    // Some bits have no meaning (the time and the name in the header, unused bits).
    else if (!got.failed)
        CHECK(got.out == want, "corruption-unnoticed", "{}: {} bytes instead of {}, or different ones, without an exception", what, got.out.size(), want.size());
}
}  // namespace V
