#include <fcntl.h>
#include <unistd.h>

#include "stores.h"

#include <zlib.h>

#include <algorithm>
#include <fstream>

namespace V {

using namespace mlio;

void throw_err(Err e)
{
    switch (e) {
    case Err::stream:
        throw Stream_error{"injected stream error"};
    case Err::runtime:
        throw std::runtime_error{"injected runtime error"};
    case Err::system:
        throw std::system_error{EIO, std::generic_category(), "injected system error"};
    case Err::bad_alloc:
        throw std::bad_alloc{};
    case Err::not_supported:
        throw Not_supported_error{"injected not supported error"};
    }
    std::abort();
}

namespace {

class Test_stream final : public Input_stream_base {
public:
    using Input_stream_base::read;
    Test_stream(std::shared_ptr<Plan> p, std::size_t nr) : plan_{std::move(p)}, nr_{nr}, rng_{plan_->seed * 31 + nr}
    {
        plan_->live++;
        if (plan_->zero_copy) slice_ = make_slice(plan_->content);
    }
    ~Test_stream() override { plan_->live--; }

    std::size_t limit(std::size_t want)
    {
        std::size_t n = std::min(want, plan_->content.size() - pos_);
        if (plan_->delay_us != 0 && rng_.chance(0.3)) std::this_thread::sleep_for(std::chrono::microseconds(rng_.below(plan_->delay_us) + 1));
        if (plan_->on_read) {
            std::size_t l = plan_->on_read(nr_, pos_);
            if (l != 0) n = std::min(n, l);
        }
        if (plan_->max_read != 0 && n > 1) {
            std::size_t m = plan_->random_reads ? 1 + rng_.below(plan_->max_read) : plan_->max_read;
            n = std::min(n, m);
        }
        return n;
    }

    std::size_t read(Mutable_memory_span dst) override
    {
        if (closed_) throw Stream_error{"closed"};
        if (dst.empty()) return 0;
        if (pos_ == plan_->content.size()) plan_->reads_after_end++;
        std::size_t n = limit(dst.size());
        if (n != 0) std::memcpy(dst.data(), plan_->content.data() + pos_, n);
        pos_ += n;
        plan_->delivered += n;
        return n;
    }
    Memory_slice read(std::size_t size) override
    {
        if (!plan_->zero_copy) return Input_stream_base::read(size);
        if (closed_) throw Stream_error{"closed"};
        if (size == 0) return {};
        std::size_t n = limit(size);
        Memory_slice r = slice_.subslice(pos_, n);
        pos_ += n;
        plan_->delivered += n;
        return r;
    }
    void seek(std::size_t position) override
    {
        if (!plan_->seekable) Input_stream_base::seek(position);
        if (position > plan_->content.size()) throw std::invalid_argument{"position"};
        pos_ = position;
    }
    void close() noexcept override { closed_ = true; }
    std::size_t size() const override
    {
        if (!plan_->seekable) return Input_stream_base::size();
        return plan_->content.size();
    }
    std::size_t position() const override
    {
        if (!plan_->seekable) return Input_stream_base::position();
        return pos_;
    }
    bool closed() const noexcept override { return closed_; }
    bool seekable() const noexcept override { return plan_->seekable; }
    bool supports_zero_copy() const noexcept override { return plan_->zero_copy; }

private:
    std::shared_ptr<Plan> plan_;
    std::size_t nr_;
    Rng rng_;
    std::size_t pos_{};
    bool closed_{};
    Memory_slice slice_{};
};

}  // namespace

Intrusive_ptr<Input_stream> Test_store::open_read() const
{
    std::size_t nr = plan->opens++;
    if (plan->on_open) plan->on_open(nr);
    return make_intrusive<Test_stream>(plan, nr);
}

std::shared_ptr<Plan> make_plan(Bytes content, std::string id)
{
    auto p = std::make_shared<Plan>();
    p->content = std::move(content);
    p->id = std::move(id);
    return p;
}

Intrusive_ptr<Data_store> make_store(std::shared_ptr<Plan> p)
{
    return make_intrusive<Test_store>(std::move(p));
}

Intrusive_ptr<Data_store> memory_store(const Bytes &b, Compression c)
{
    return make_intrusive<In_memory_store>(make_slice(b), c);
}

Bytes deflate_bytes(const Bytes &b, int level, int strategy, int mem_level, int window_bits, std::size_t flush_every)
{
    z_stream z{};
    if (deflateInit2(&z, level, Z_DEFLATED, window_bits, mem_level, strategy) != Z_OK) throw std::runtime_error{"deflateInit2"};
    Bytes out;
    char buf[4096];
    std::size_t pos = 0;
    while (true) {
        std::size_t n = b.size() - pos;
        int flush = Z_FINISH;
        if (flush_every != 0 && n > flush_every) {
            n = flush_every;
            flush = (pos / flush_every) % 2 == 0 ? Z_SYNC_FLUSH : Z_FULL_FLUSH;
        }
        z.next_in = reinterpret_cast<Bytef *>(const_cast<char *>(b.data() + pos));
        z.avail_in = static_cast<uInt>(n);
        pos += n;
        int r{};
        do {
            z.next_out = reinterpret_cast<Bytef *>(buf);
            z.avail_out = sizeof(buf);
            r = deflate(&z, flush);
            out.append(buf, sizeof(buf) - z.avail_out);
        } while (z.avail_out == 0);
        if (r == Z_STREAM_END) break;
    }
    deflateEnd(&z);
    return out;
}

bool write_sparse_file(const std::string &path, std::size_t size, const std::vector<std::pair<std::size_t, Bytes>> &pieces)
{
    int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    if (fd == -1) return false;
    bool ok = ::ftruncate(fd, static_cast<off_t>(size)) == 0;
    for (auto &x : pieces) ok = ok && ::pwrite(fd, x.second.data(), x.second.size(), static_cast<off_t>(x.first)) == static_cast<ssize_t>(x.second.size());
    ::close(fd);
    if (!ok) ::unlink(path.c_str());
    return ok;
}

void write_file(const std::string &path, const Bytes &b)
{
    std::ofstream f{path, std::ios::binary | std::ios::trunc};
    f.write(b.data(), static_cast<std::streamsize>(b.size()));
    if (!f) throw std::runtime_error{"cannot write " + path};
}

Bytes read_file(const std::string &path)
{
    std::ifstream f{path, std::ios::binary};
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

}  // namespace V
