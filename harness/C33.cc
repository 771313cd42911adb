// C33: data stores and records opened as Arrow files (src/mlio-py/mlio/integ/arrow), on a stand-in for
// the interfaces of Apache Arrow, which is not installed.
#include <arrow/buffer.h>
#include <arrow/io/interfaces.h>
#include <arrow_buffer.h>
#include <arrow_file.h>
#include <unistd.h>

#include <algorithm>
#include <new>

#include "stores.h"
namespace V {
using namespace mlio;
const char *const property_id = "C33";
const char *const rule =
    "Each case opens an Arrow file over a drawn stream (file, mapped file, heap memory, the payload of a record, a double with short reads, zero-copy or not, whose operations fail at drawn moments with one of six exception types) and runs a "
    "drawn sequence of reads of both forms, seeks, tells, size queries and closes next to a model with a position; buffers are kept and compared after the file and the stream are gone. Non-seekable streams must be rejected. "
    "Non-trivial: at least two reads returned data. Distinct by content, stream and operations.";
std::uint64_t num_cases(bool thorough) { return thorough ? 400000 : 40000; }

namespace {
struct Fault_plan {
    int kind{};                // 0: none
    std::size_t countdown{};
    bool armed{true};
};
class Double final : public Input_stream {
public:
    Double(Bytes b, std::size_t most, bool zc, Fault_plan *f) : b_{std::move(b)}, most_{most}, zc_{zc}, f_{f}, block_{make_slice(b_)} {}
    std::size_t read(Mutable_memory_span d) override
    {
        fault();
        std::size_t n = std::min({d.size(), b_.size() - pos_, most_});
        if (n != 0) std::memcpy(d.data(), b_.data() + pos_, n);
        pos_ += n;
        return n;
    }
    Memory_slice read(std::size_t size) override
    {
        fault();
        std::size_t n = std::min({size, b_.size() - pos_, most_});
        Memory_slice s = zc_ ? block_.subslice(pos_, n) : make_slice(b_.substr(pos_, n));
        pos_ += n;
        return s;
    }
    void seek(std::size_t p) override
    {
        fault();
        pos_ = std::min(p, b_.size());
    }
    void close() noexcept override
    {
        closed_ = true;
        closes++;
    }
    std::size_t size() const override
    {
        fault();
        return b_.size();
    }
    std::size_t position() const override
    {
        fault();
        return pos_;
    }
    bool closed() const noexcept override { return closed_; }
    bool seekable() const noexcept override { return true; }
    bool supports_zero_copy() const noexcept override { return zc_; }
    int closes{};

private:
    void fault() const
    {
        if (f_->kind == 0 || f_->countdown-- != 0) return;
        int k = std::exchange(f_->kind, 0);
        switch (k) {
        case 1: throw std::bad_alloc{};
        case 2: throw std::invalid_argument{"drawn"};
        case 3: throw Stream_error{"drawn"};
        case 4: throw Not_supported_error{"drawn"};
        case 5: throw std::system_error{std::make_error_code(std::errc::io_error), "drawn"};
        default: throw 42;
        }
    }
    Bytes b_;
    std::size_t most_, pos_{};
    bool zc_, closed_{};
    Fault_plan *f_;
    Memory_slice block_;
};
arrow::StatusCode code_of(int kind)
{
    switch (kind) {
    case 1: return arrow::StatusCode::OutOfMemory;
    case 2: return arrow::StatusCode::Invalid;
    case 3: return arrow::StatusCode::IOError;
    case 4: return arrow::StatusCode::NotImplemented;
    default: return arrow::StatusCode::UnknownError;
    }
}
}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Bytes b;
    std::size_t n = r.chance(0.08) ? 0 : r.chance(0.1) ? r.in(1000, 30000) : r.below(300);
    while (b.size() < n) b += static_cast<char>(r.next());
    unsigned kind = static_cast<unsigned>(r.below(7));
    static const char *const names[] = {"file", "memory", "mapped file", "record", "double", "zero-copy double", "non-seekable"};
    std::string what = names[kind], ops, path = c.scratch + "/f";
    Fault_plan fault;
    Intrusive_ptr<Input_stream> s;
    Double *dbl = nullptr;
    std::size_t most = std::numeric_limits<std::size_t>::max();
    switch (kind) {
    case 0:
    case 2:
        write_file(path, b);
        s = make_intrusive<File>(path, kind == 2)->open_read();
        ::unlink(path.c_str());
        break;
    case 1:
        s = memory_store(b)->open_read();
        break;
    case 3: {
        std::size_t before = r.below(50), after = r.below(50);
        Record rec{make_slice(Bytes(before, 'x') + b + Bytes(after, 'y')).subslice(before, b.size())};
        s = make_intrusive<Memory_input_stream>(rec.payload());
        break;
    }
    case 4:
    case 5: {
        if (r.chance(0.5)) most = r.in(1, 30);
        if (r.chance(0.5)) fault = {static_cast<int>(r.in(1, 6)), r.below(12)};
        auto d = make_intrusive<Double>(b, most, kind == 5, &fault);
        dbl = d.get();
        s = std::move(d);
        break;
    }
    default: {
        bool thrown = false;
        try {
            pymlio::Arrow_file f{r.chance(0.5) ? memory_store(deflate_bytes(b), Compression::gzip)->open_read() : make_store(make_plan(b))->open_read()};
        }
        catch (const std::invalid_argument &) {
            thrown = true;
        }
        CHECK(thrown, "non-seekable", "an Arrow file is made from a stream that cannot seek");
        c.count("streams: non-seekable");
        c.nontrivial = !b.empty();
        c.sig = fmt::format("n|{}", hash_str(b));
        return;
    }
    }
    bool zc = s->supports_zero_copy();
    Intrusive_ptr<Input_stream> inner = s;
    auto file = std::make_shared<pymlio::Arrow_file>(std::move(s));
    if (dbl == nullptr || r.chance(0.5)) inner = nullptr;
    std::shared_ptr<arrow::io::RandomAccessFile> f = file;
    file = nullptr;
    struct Kept {
        std::shared_ptr<arrow::Buffer> buf;
        Bytes want;
    };
    std::vector<Kept> kept;
    std::size_t pos = 0, reads = 0, steps = r.in(1, 40);
    bool closed = false;
    CHECK(f->supports_zero_copy() == zc, "zero-copy", "{}: supports_zero_copy() is {}, that of the stream {}", what, !zc, zc);
    for (std::size_t i = 0; i < steps; i++) {
        unsigned op = static_cast<unsigned>(r.below(10));
        std::size_t want = r.chance(0.1) ? 0 : r.chance(0.2) ? b.size() + r.below(100) : r.in(1, 40);
        c.describe(fmt::format("{} of {} bytes: {}", what, b.size(), ops));
        CHECK(f->closed() == closed, "closed", "{}: closed() is {}", what, !closed);
        int armed = fault.kind;
        auto settle = [&](const arrow::Status &st, const char *name) {
            bool fired = armed != 0 && fault.kind == 0;
            if (closed) {
                CHECK(st.code() == arrow::StatusCode::Invalid, "closed-op", "{}: {} of a closed file: status {}", what, name, int(st.code()));
                CHECK(!fired, "closed-op", "{}: {} of a closed file uses the stream", what, name);
                c.count("operations on closed files");
                return false;
            }
            if (fired) {
                CHECK(!st.ok(), "lost-error", "{}: {} succeeds although its stream failed", what, name);
                CHECK(st.code() == code_of(armed), "error-code", "{}: {}: failure {} has become status {}", what, name, armed, int(st.code()));
                c.count("failures of the stream");
                return false;
            }
            CHECK(st.ok(), "unexpected-error", "{}: {}: {}", what, name, st.message());
            return true;
        };
        auto check = [&](std::size_t got, const void *p) {
            std::size_t left = b.size() - pos;
            CHECK(got <= want && got <= left, "read-size", "{}: a read of {} bytes at {} of {} returned {}", what, want, pos, b.size(), got);
            if (want != 0 && left != 0) CHECK(got != 0, "early-end", "{}: a read of {} bytes at {} of {} returned nothing", what, want, pos, b.size());
            if (most > want) CHECK(got == std::min(want, left), "short-read", "{}: a read of {} bytes at {} of {} returned {}", what, want, pos, b.size(), got);
            if (got != 0) CHECK(std::memcmp(p, b.data() + pos, got) == 0, "read-bytes", "{}: a read of {} bytes at {} returned other bytes", what, got, pos);
            pos += got;
            reads += got != 0;
        };
        if (op < 3) {
            ops += fmt::format("read {}; ", want);
            std::vector<char> buf(want + 8, 0x5a);
            auto res = f->Read(static_cast<std::int64_t>(want), buf.data());
            if (settle(res.status(), "Read")) check(static_cast<std::size_t>(res.ValueOrDie()), buf.data());
            for (std::size_t k = want; k < want + 8; k++) CHECK(buf[k] == 0x5a, "read-overrun", "{}: bytes behind the destination have changed", what);
            c.count("reads");
        }
        else if (op < 6) {
            ops += fmt::format("buffer {}; ", want);
            std::size_t at = pos;
            auto res = f->Read(static_cast<std::int64_t>(want));
            if (settle(res.status(), "Read")) {
                auto buf = res.ValueOrDie();
                CHECK(buf != nullptr, "no-buffer", "{}: a read returned no buffer", what);
                CHECK(buf->capacity() == buf->size() && !buf->is_mutable(), "buffer", "{}: a buffer of {} bytes has capacity {}", what, buf->size(), buf->capacity());
                check(static_cast<std::size_t>(buf->size()), buf->data());
                kept.push_back({buf, b.substr(at, static_cast<std::size_t>(buf->size()))});
            }
            c.count(zc ? "zero-copy buffers" : "buffers");
        }
        else if (op < 8) {
            std::size_t to = r.chance(0.1) && dbl == nullptr ? b.size() + r.below(1000) : r.below(b.size() + 1);
            ops += fmt::format("seek {}; ", to);
            if (settle(f->Seek(static_cast<std::int64_t>(to)), "Seek")) pos = std::min(to, b.size());
            c.count("seeks");
        }
        else if (op == 8) {
            ops += "query; ";
            auto t = f->Tell();
            if (settle(t.status(), "Tell")) CHECK(static_cast<std::size_t>(t.ValueOrDie()) == pos, "position", "{}: Tell() is {} instead of {}", what, t.ValueOrDie(), pos);
            armed = fault.kind;
            auto z = f->GetSize();
            if (settle(z.status(), "GetSize")) CHECK(static_cast<std::size_t>(z.ValueOrDie()) == b.size(), "size", "{}: GetSize() is {} instead of {}", what, z.ValueOrDie(), b.size());
        }
        else if (r.chance(0.3)) {
            ops += "close; ";
            CHECK(f->Close().ok(), "close", "{}: Close() fails", what);
            closed = true;
            if (inner != nullptr) CHECK(dbl->closed(), "close", "{}: the stream is open after Close()", what);
        }
    }
    f = nullptr;
    inner = nullptr;
    for (auto &k : kept) CHECK(Bytes(reinterpret_cast<const char *>(k.buf->data()), static_cast<std::size_t>(k.buf->size())) == k.want, "buffer-changed", "{}: a buffer has changed after the end of its file", what);
    c.nontrivial = reads >= 2;
    c.count("streams: " + what);
    c.sig = fmt::format("{}|{}|{}", what, hash_str(b), hash_str(ops));
}
}  // namespace V
