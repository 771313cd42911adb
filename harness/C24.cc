#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>
#include <limits>

#include <algorithm>

#include "stores.h"
namespace V {
using namespace mlio;
const char *const property_id = "C24";
const char *const rule =
    "Each case opens one or two streams over drawn content (file, heap memory, mapped file, slice in the middle of a block, gzip, UTF-8 conversion, bases with the default operations; huge sparse files, FIFOs, directories and names without a file) and runs a "
    "drawn sequence of reads of both forms, seeks, queries and closes next to a model with a position; returned slices are kept and compared at the end, after the streams and stores are gone. "
    "Non-trivial: at least two reads returned data. Distinct by content, stream and operations.";
std::uint64_t num_cases(bool thorough) { return thorough ? 400000 : 40000; }

// Positions and sizes that do not fit into 32 bits.
static void huge(Case &c)
{
    Rng &r = c.rng;
    std::string path = c.scratch + "/huge";
    std::vector<std::size_t> marks{0, 0x7ffffffcU, 0xfffffff8U, 0x100000010U, 0x123456789U};
    std::size_t size = 0x140000000U + r.below(100);
    marks.push_back(size - 8);
    std::vector<std::pair<std::size_t, Bytes>> pieces;
    for (auto m : marks) pieces.emplace_back(m, fmt::format("<{:06}>", m % 1000000));
    unsigned kind = static_cast<unsigned>(c.index % 4);
    static const char *const names[] = {"file", "file of a store", "mapped store", "mapped block"};
    c.describe(fmt::format("{} of {} bytes", names[kind], size));
    if (!write_sparse_file(path, size, pieces)) {
        c.count("huge files not possible");
        return;
    }
    Intrusive_ptr<Input_stream> s;
    if (kind == 0) s = make_intrusive<File_input_stream>(path);
    if (kind == 1) s = make_intrusive<File>(path, false)->open_read();
    if (kind == 2) s = make_intrusive<File>(path, true)->open_read();
    if (kind == 3) s = make_intrusive<Memory_input_stream>(make_intrusive<File_mapped_memory_block>(path));
    ::unlink(path.c_str());
    CHECK(s->size() == size, "size", "{}: the size is {} instead of {}", names[kind], s->size(), size);
    for (std::size_t i = 0; i < 60; i++) {
        auto &x = r.pick(pieces);
        std::size_t skip = r.below(8), n = 8 - skip;
        s->seek(x.first + skip);
        CHECK(s->position() == x.first + skip, "position", "{}: the position is {} after a seek to {}", names[kind], s->position(), x.first + skip);
        Bytes got;
        if (s->supports_zero_copy() && r.chance(0.5)) {
            auto b = s->read(n);
            got = slice_bytes(b);
        }
        else {
            got.resize(n);
            got.resize(s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(got.data()), n}));
        }
        CHECK(got == x.second.substr(skip), "read-bytes", "{}: a read at {} of {} returned {} instead of {}", names[kind], x.first + skip, size, quote(got), x.second.substr(skip));
        CHECK(s->position() == x.first + 8, "position", "{}: the position is {} after a read up to {}", names[kind], s->position(), x.first + 8);
    }
    s->seek(size + r.below(1000));
    CHECK(s->position() == size, "position", "{}: the position is {} after a seek behind the end", names[kind], s->position());
    Bytes rest(10, 'x');
    CHECK(s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(rest.data()), 10}) == 0, "end", "{}: a read at the end returns data", names[kind]);
    c.count("huge sources");
    c.nontrivial = true;
}

// Files without positions, and names behind which there is no file.
static void special(Case &c)
{
    Rng &r = c.rng;
    std::string dir = c.scratch + "/special", path = dir + "/fifo";
    ::mkdir(dir.c_str(), 0700);
    auto refused = [&](const char *what, auto &&f) {
        bool thrown = false;
        try {
            f();
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown, "no-error", "{} raises no exception", what);
    };
    for (std::string name : {std::string{}, dir + "/", dir + "\\", dir + "/none", dir + "/none/x", dir + "/" + std::string(300, 'n'), std::string("/")}) {
        c.describe("special name " + quote(name));
        refused("a stream without a file", [&] { make_intrusive<File_input_stream>(name); });
        refused("a mapped block without a file", [&] { make_intrusive<File_mapped_memory_block>(name); });
        for (bool map : {false, true}) refused("a store without a file", [&] { make_intrusive<File>(name, map)->open_read(); });
    }
    // A directory can be opened, but not read.
    refused("reading a directory", [&] {
        std::vector<std::byte> b(4);
        make_intrusive<File_input_stream>(dir)->read(b);
    });
    refused("mapping a directory", [&] { make_intrusive<File>(dir, true)->open_read(); });
    Bytes b;
    for (std::size_t n = r.below(3000); b.size() < n;) b += static_cast<char>(r.next());
    c.describe(fmt::format("FIFO with {} bytes", b.size()));
    if (::mkfifo(path.c_str(), 0600) != 0) {
        c.count("FIFOs not possible");
        return;
    }
    std::size_t chunk = r.in(1, 700);
    std::thread writer{[&] {
        int fd = ::open(path.c_str(), O_WRONLY | O_CLOEXEC);
        for (std::size_t i = 0; fd != -1 && i < b.size();) {
            ssize_t n = ::write(fd, b.data() + i, std::min(chunk, b.size() - i));
            if (n <= 0) break;
            i += static_cast<std::size_t>(n);
        }
        ::close(fd);
    }};
    std::shared_ptr<void> join{nullptr, [&](void *) {
                                   writer.join();
                                   ::unlink(path.c_str());
                               }};
    auto s = r.chance(0.5) ? make_intrusive<File>(path, false)->open_read() : Intrusive_ptr<Input_stream>{make_intrusive<File_input_stream>(path)};
    Bytes got;
    while (true) {
        if (r.chance(0.2)) refused("asking for the position in a FIFO", [&] { s->position(); });
        if (r.chance(0.2)) refused("a seek in a FIFO", [&] { s->seek(r.below(b.size() + 2)); });
        Bytes x(r.in(1, 900), '?');
        std::size_t n = s->read(Mutable_memory_span{reinterpret_cast<std::byte *>(x.data()), x.size()});
        CHECK(n <= x.size(), "read-size", "a read returns {} of {} bytes", n, x.size());
        if (n == 0) break;
        got += x.substr(0, n);
    }
    CHECK(got == b, "read-bytes", "{} bytes instead of {} have been read from a FIFO", got.size(), b.size());
    s->close();
    refused("a closed FIFO", [&] {
        std::vector<std::byte> x(4);
        s->read(x);
    });
    c.count("FIFOs");
    c.nontrivial = true;
}

static std::size_t live_blocks;
struct Counted_block final : Memory_block {
    std::vector<std::byte> v;
    explicit Counted_block(const Bytes &b) : v(b.size())
    {
        if (!b.empty()) std::memcpy(v.data(), b.data(), b.size());
        live_blocks++;
    }
    ~Counted_block() final { live_blocks--; }
    const_pointer data() const noexcept final { return v.data(); }
    size_type size() const noexcept final { return v.size(); }
};

// The descriptors and mappings of this process that belong to a file
static std::size_t holds(const std::string &path)
{
    std::size_t n = 0;
    for (auto &e : std::filesystem::directory_iterator{"/proc/self/fd"}) {
        std::error_code err;
        auto to = std::filesystem::read_symlink(e.path(), err).string();
        n += !err && to.compare(0, path.size(), path) == 0;
    }
    std::ifstream maps{"/proc/self/maps"};
    for (std::string l; std::getline(maps, l);) n += l.find(path) != std::string::npos;
    return n;
}

// A closed stream has given up its source, even if the stream itself lives on.
static void closing(Case &c)
{
    Rng &r = c.rng;
    Bytes b;
    for (std::size_t n = r.in(1, 20000); b.size() < n;) b += static_cast<char>('a' + r.below(26));
    std::string path = fmt::format("{}/closing-{}-", c.scratch, c.index);
    unsigned kind = static_cast<unsigned>(r.below(8));
    static const char *const names[] = {"file", "file of a store", "mapped store", "mapped block", "gzip file", "mapped gzip file", "converted file", "memory"};
    bool gzip = kind == 4 || kind == 5, mapped = kind == 2 || kind == 3 || kind == 7;
    write_file(path, gzip ? deflate_bytes(b) : b);
    c.describe(fmt::format("closing a {} of {} bytes", names[kind], b.size()));
    Intrusive_ptr<Input_stream> s;
    if (kind == 0) s = make_intrusive<File_input_stream>(path);
    if (kind == 1) s = make_intrusive<File>(path, false)->open_read();
    if (kind == 2) s = make_intrusive<File>(path, true)->open_read();
    if (kind == 3) s = make_intrusive<Memory_input_stream>(make_intrusive<File_mapped_memory_block>(path));
    if (kind == 4 || kind == 5) s = make_intrusive<File>(path, kind == 5, Compression::gzip)->open_read();
    if (kind == 6) s = make_utf8_stream(make_intrusive<File_input_stream>(path), Text_encoding{"ISO-8859-1"});
    if (kind == 7) s = make_intrusive<Memory_input_stream>(make_intrusive<Counted_block>(b));
    auto held = [&] { return kind == 7 ? live_blocks : holds(path); };
    CHECK(held() != 0, "source", "an open {} stream does not hold its source", names[kind]);
    Memory_slice kept{};
    std::size_t want = r.chance(0.2) ? 0 : r.chance(0.2) ? 2 * b.size() : r.in(1, b.size()), got = 0;
    while (got < want) {
        Memory_slice x = s->read(want - got);
        if (x.empty()) break;
        CHECK(slice_bytes(x) == b.substr(got, x.size()), "read-bytes", "{}: wrong bytes at {}", names[kind], got);
        got += x.size();
        kept = std::move(x);
    }
    s->close();
    if (!mapped || kept.empty()) {
        CHECK(held() == 0, "close-holds", "a closed {} stream still holds its source", names[kind]);
    }
    else {
        CHECK(slice_bytes(kept) == b.substr(got - kept.size(), kept.size()), "slice-changed", "{}: a slice has changed after its stream was closed", names[kind]);
        kept = {};
        CHECK(held() == 0, "close-holds", "the source of a closed {} stream remains after the last slice is gone", names[kind]);
    }
    CHECK(s->closed(), "closed", "{}: closed() is false after close()", names[kind]);
    s = nullptr;
    ::unlink(path.c_str());
    c.nontrivial = got != 0;
    c.count("sources released by a close");
    c.sig = c.description() + fmt::format("|{}|{}", got, hash_str(b));
}

void run_case(Case &c)
{
    if (c.index < 4) return huge(c);
    if (c.index < 24) return special(c);
    if (c.index % 40 == 30) return closing(c);
    Rng &r = c.rng;
    Tune tune;
    std::string knobs = Tune::randomize(r, true);
    Bytes b;
    std::size_t n = r.chance(0.08) ? 0 : r.chance(0.1) ? r.in(1000, 30000) : r.below(300);
    unsigned kind = static_cast<unsigned>(r.below(8));
    while (b.size() < n) b += kind == 5 ? static_cast<char>('a' + r.below(26)) : static_cast<char>(r.next());
    static const char *const names[] = {"file", "memory", "mapped file", "slice", "gzip", "UTF-8", "mapped file stream", "non-seekable"};
    std::string what = names[kind], ops;
    std::string path = c.scratch + "/f";
    Intrusive_ptr<Input_stream> s;
    bool seekable = true;
    auto open = [&] {
        Intrusive_ptr<Input_stream> x;
        switch (kind) {
        case 0:
            write_file(path, b);
            if (r.chance(0.5))
                x = make_intrusive<File_input_stream>(path);
            else
                x = make_intrusive<File>(path, false)->open_read();
            ::unlink(path.c_str());
            break;
        case 1:
            if (r.chance(0.5))
                x = make_intrusive<Memory_input_stream>(make_slice(b));
            else
                x = memory_store(b)->open_read();
            break;
        case 2:
            write_file(path, b);
            x = make_intrusive<Memory_input_stream>(make_intrusive<File_mapped_memory_block>(path));
            ::unlink(path.c_str());
            break;
        case 3: {
            std::size_t before = r.below(50), after = r.below(50);
            x = make_intrusive<Memory_input_stream>(make_slice(Bytes(before, 'x') + b + Bytes(after, 'y')).subslice(before, b.size()));
            break;
        }
        case 4: {
            seekable = false;
            x = make_intrusive<Gzip_inflate_stream>(memory_store(deflate_bytes(b))->open_read());
            break;
        }
        case 5: {
            auto inner = r.chance(0.5) ? memory_store(b)->open_read() : make_store(make_plan(b))->open_read();
            x = make_utf8_stream(std::move(inner), r.chance(0.5) ? std::optional<Text_encoding>{Text_encoding::utf8} : r.chance(0.5) ? std::optional<Text_encoding>{Text_encoding{"ISO-8859-1"}} : std::optional<Text_encoding>{});
            seekable = x->seekable();
            break;
        }
        case 6:
            write_file(path, b);
            x = make_intrusive<File>(path, true)->open_read();
            ::unlink(path.c_str());
            break;
        default: {
            seekable = false;
            auto p = make_plan(b);
            if (r.chance(0.5)) p->max_read = r.in(1, 30);
            x = make_store(p)->open_read();
            break;
        }
        }
        return x;
    };
    s = open();
    // Not the streams of the harness, and not those wrapped around them
    bool own = what == "file" || what == "memory" || what == "mapped file" || what == "slice" || what == "mapped file stream";
    std::size_t pos = 0, reads = 0, steps = r.in(1, 40);
    CHECK(s->seekable() == seekable, "seekable", "a {} stream claims seekable()={}", what, s->seekable());
    bool zero_copy = s->supports_zero_copy();
    struct Kept {
        Memory_slice slice;
        Bytes want;
    };
    std::vector<Kept> kept;
    auto check_read = [&](std::size_t want, std::size_t got, const std::byte *p) {
        std::size_t left = b.size() - pos;
        CHECK(got <= want, "read-size", "{}: a read of {} bytes returned {}", what, want, got);
        CHECK(got <= left, "read-size", "{}: a read at {} of {} returned {} bytes", what, pos, b.size(), got);
        if (want != 0 && left != 0)
            CHECK(got != 0, "early-end", "{}: a read of {} bytes at {} of {} returned nothing", what, want, pos, b.size());
        if (got != 0) CHECK(std::memcmp(p, b.data() + pos, got) == 0, "read-bytes", "{}: a read of {} bytes at {} returned {} instead of {}", what, got, pos, quote(Bytes(reinterpret_cast<const char *>(p), got), 100), quote(b.substr(pos, got), 100));
        pos += got;
        reads += got != 0;
        c.count("reads");
    };
    bool closed = false;
    for (std::size_t i = 0; i < steps; i++) {
        unsigned op = static_cast<unsigned>(r.below(10));
        std::size_t want = r.chance(0.1) ? 0 : r.chance(0.2) ? b.size() + r.below(100) : r.in(1, 40);
        static constexpr std::size_t most = std::numeric_limits<std::size_t>::max();
        const std::size_t far[] = {most, most - r.below(1000), most / 2 + 1, most / 2, most / 2 - r.below(1000), b.size() + 1 + r.below(1000)};
        c.describe(fmt::format("{} of {} bytes: {} {}", what, b.size(), ops, knobs));
        if (closed) {
            ops += fmt::format("closed op {}; ", op);
            std::vector<std::byte> buf(10);
            bool thrown = false;
            try {
                if (op < 3)
                    s->read(Mutable_memory_span{buf.data(), r.in(1, 10)});
                else if (op < 6)
                    s->read(r.in(1, 10));
                else if (op < 8)
                    s->seek(0);
                else if (op == 8)
                    s->size();
                else
                    s->position();
            }
            catch (const std::exception &) {
                thrown = true;
            }
            CHECK(thrown, "closed", "{}: operation {} succeeds although the stream is closed", what, op);
            CHECK(s->closed(), "closed", "{}: closed() is false after close()", what);
            c.count("operations on closed streams");
            if (r.chance(0.2)) s->close();
            continue;
        }
        CHECK(!s->closed(), "closed", "{}: closed() is true before close()", what);
        if (op < 3) {
            ops += fmt::format("read {}; ", want);
            std::vector<std::byte> buf(want + 8, std::byte{0x5a});
            std::size_t got = s->read(Mutable_memory_span{buf.data(), want});
            check_read(want, got, buf.data());
            for (std::size_t k = want; k < want + 8; k++) CHECK(buf[k] == std::byte{0x5a}, "read-overrun", "{}: bytes behind the destination have changed", what);
        }
        else if (op < 6) {
            ops += fmt::format("slice {}; ", want);
            std::size_t at = pos;
            // Of a zero-copy stream one can ask for more than there is memory.
            if (zero_copy && r.chance(0.1)) want = far[r.below(6)];
            Memory_slice x = s->read(want);
            check_read(want, x.size(), x.data());
            kept.push_back({x, b.substr(at, x.size())});
            c.count(zero_copy ? "zero-copy reads" : "slice reads");
        }
        else if (op < 8) {
            std::size_t to = r.below(b.size() + 1);
            bool behind = seekable && own && r.chance(0.15);
            if (behind) to = far[r.below(6)];
            ops += fmt::format("seek {}; ", to);
            bool thrown = false;
            try {
                s->seek(to);
            }
            catch (const std::exception &e) {
                thrown = true;
                CHECK(!seekable, "seek", "{}: seek to {} of {}: {}", what, to, b.size(), e.what());
            }
            CHECK(thrown == !seekable, "seek", "{}: a seek of a non-seekable stream succeeds", what);
            if (!thrown) pos = std::min(to, b.size());
            if (behind) {
                CHECK(s->position() == b.size(), "seek-behind", "{}: after a seek to {} of {} the position is {}", what, to, b.size(), s->position());
                c.count("seeks behind the end");
            }
        }
        else if (op == 8) {
            ops += "query; ";
            bool t1 = false, t2 = false;
            std::size_t sz{}, ps{};
            try {
                sz = s->size();
            }
            catch (const std::exception &) {
                t1 = true;
            }
            try {
                ps = s->position();
            }
            catch (const std::exception &) {
                t2 = true;
            }
            CHECK(t1 == !seekable && t2 == !seekable, "query", "{}: size() {}, position() {}", what, t1 ? "fails" : "succeeds", t2 ? "fails" : "succeeds");
            if (seekable) {
                CHECK(sz == b.size(), "size", "{}: size() is {} instead of {}", what, sz, b.size());
                CHECK(ps == pos, "position", "{}: position() is {} instead of {}", what, ps, pos);
            }
            CHECK(s->seekable() == seekable && s->supports_zero_copy() == zero_copy, "query", "{}: the abilities of the stream change", what);
        }
        else if (r.chance(0.3)) {
            ops += "close; ";
            s->close();
            closed = true;
        }
    }
    if (!closed && r.chance(0.7)) {
        // Up to the end
        for (std::size_t k = 0;; k++) {
            std::vector<std::byte> buf(r.in(1, 5000));
            std::size_t got = s->read(Mutable_memory_span{buf.data(), buf.size()});
            check_read(buf.size(), got, buf.data());
            if (got == 0) break;
        }
        CHECK(pos == b.size(), "early-end", "{}: the end is reported at {} of {}", what, pos, b.size());
        std::byte one{};
        CHECK(s->read(Mutable_memory_span{&one, 1}) == 0, "after-end", "{}: a read after the end returned data", what);
        CHECK(s->read(std::size_t{7}).empty(), "after-end", "{}: a read after the end returned data", what);
        if (seekable) {
            if (r.chance(0.5)) s->seek(b.size() + r.in(1, 1000));
            CHECK(s->read(Mutable_memory_span{&one, 1}) == 0, "after-end", "{}: a read behind the end returned data", what);
            s->seek(0);
            pos = 0;
            std::vector<std::byte> buf(b.size() + 1);
            std::size_t got = s->read(Mutable_memory_span{buf.data(), buf.size()});
            check_read(buf.size(), got, buf.data());
        }
    }
    if (r.chance(0.5)) s->close();
    s = nullptr;
    for (auto &k : kept) CHECK(slice_bytes(k.slice) == k.want, "slice-changed", "{}: a slice has changed after the end of its stream", what);
    c.nontrivial = reads >= 2;
    c.count("streams: " + what);
    c.sig = fmt::format("{}|{}|{}", what, hash_str(b), hash_str(ops));
}
}  // namespace V
