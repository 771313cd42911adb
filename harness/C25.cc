#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C25";
const char *const rule =
    "Each case creates the FIFOs of one or two channels in a scratch directory and feeds them from writer threads with drawn contents, chunk sizes and pauses (pipes fill up, writers come late, signals "
    "interrupt the reader). Streams, stores (plain and gzip) and data readers read one to four epochs; every byte is compared and tells which FIFO it came from. Some cases open a channel that is in use "
    "(also from several threads), close streams twice, let a writer stall or stay away or a FIFO be missing; those must raise an exception after a correct prefix and leave the channel usable. "
    "Some run with descriptors above FD_SETSIZE. Non-trivial: at least one epoch with data has been compared. Distinct by configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 30000 : 2600; }

namespace {

using Clock = std::chrono::steady_clock;
using std::chrono::milliseconds;

struct Feed {
    std::string path;
    Bytes content;
    std::size_t max_chunk = 1000;
    double pause_p = 0;
    unsigned pause_us = 0;
    unsigned late_ms = 0;                // how late the writer opens the FIFO
    std::optional<std::size_t> stall{};  // after that many bytes the writer keeps silent
    std::uint64_t seed{};
};

// Writes the content of one FIFO after the other.
struct Writer {
    std::vector<Feed> feeds;
    std::atomic_bool stop{};
    std::atomic_size_t written{};
    std::thread thread;

    explicit Writer(std::vector<Feed> f) : feeds{std::move(f)}
    {
        thread = std::thread{[this] {
            for (auto &x : feeds)
                if (!stop) run(x);
        }};
    }
    ~Writer()
    {
        stop = true;
        thread.join();
    }
    void pause(unsigned us)
    {
        auto end = Clock::now() + std::chrono::microseconds{us};
        while (!stop && Clock::now() < end) std::this_thread::sleep_for(std::min<Clock::duration>(milliseconds{5}, end - Clock::now()));
    }
    void run(Feed &f)
    {
        Rng r{f.seed};
        pause(f.late_ms * 1000);
        int fd = -1;
        while (!stop) {
            fd = ::open(f.path.c_str(), O_WRONLY | O_NONBLOCK | O_CLOEXEC);
            if (fd != -1) break;
            std::this_thread::sleep_for(std::chrono::microseconds{200});
        }
        std::size_t pos = 0, end = f.stall ? *f.stall : f.content.size();
        while (!stop && fd != -1 && pos < end) {
            if (f.pause_p != 0 && r.chance(f.pause_p)) pause(static_cast<unsigned>(r.below(f.pause_us + 1)));
            std::size_t n = std::min(end - pos, r.chance(0.2) ? f.max_chunk : r.in(1, f.max_chunk));
            ssize_t k = ::write(fd, f.content.data() + pos, n);
            if (k == -1) {
                if (errno != EAGAIN) break;
                ::pollfd p{fd, POLLOUT, 0};
                ::poll(&p, 1, 5);
                continue;
            }
            pos += static_cast<std::size_t>(k);
            written += static_cast<std::size_t>(k);
        }
        if (f.stall)
            while (!stop) std::this_thread::sleep_for(milliseconds{5});
        if (fd != -1) ::close(fd);
    }
};

// Interrupts a thread again and again.
struct Interrupter {
    std::atomic_bool stop{};
    std::atomic_size_t sent{};
    std::thread thread;
    explicit Interrupter(bool on)
    {
        if (!on) return;
        pthread_t target = ::pthread_self();
        thread = std::thread{[this, target] {
            while (!stop) {
                ::pthread_kill(target, SIGUSR1);
                sent++;
                std::this_thread::sleep_for(milliseconds{3});
            }
        }};
    }
    ~Interrupter()
    {
        stop = true;
        if (thread.joinable()) thread.join();
    }
};

void setup()
{
    static bool done = [] {
        ::signal(SIGPIPE, SIG_IGN);
        struct sigaction a = {};
        a.sa_handler = [](int) {};
        ::sigaction(SIGUSR1, &a, nullptr);
        return true;
    }();
    (void)done;
}

// Takes the low file descriptors so that the FIFOs get high ones.
struct Descriptors {
    std::vector<int> fds;
    explicit Descriptors(bool on)
    {
        if (!on) return;
        ::rlimit l{};
        if (::getrlimit(RLIMIT_NOFILE, &l) != 0 || l.rlim_max < 2000) return;
        if (l.rlim_cur < 2000) {
            l.rlim_cur = 2000;
            if (::setrlimit(RLIMIT_NOFILE, &l) != 0) return;
        }
        int fd = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
        while (fd != -1 && fd < 1100) {
            fds.push_back(fd);
            fd = ::fcntl(fd, F_DUPFD_CLOEXEC, 0);
        }
        if (fd != -1) fds.push_back(fd);
    }
    ~Descriptors()
    {
        for (int fd : fds) ::close(fd);
    }
};

// Reads a stream to its end, comparing with what is expected. Returns the exception, if any.
std::string read_stream(Case &c, Input_stream &s, const Bytes &want, Rng &r, std::size_t &pos, const std::string &what)
{
    std::size_t max = r.chance(0.3) ? r.in(1, 20) + want.size() / 50 : r.in(1, 100000);
    std::vector<std::byte> buf(max);
    try {
        while (true) {
            std::size_t n = r.chance(0.5) ? max : r.in(1, max), got;
            const std::byte *p;
            Memory_slice keep;
            if (r.chance(0.7)) {
                got = s.read(Mutable_memory_span{buf.data(), n});
                p = buf.data();
            }
            else {
                keep = s.read(n);
                got = keep.size();
                p = keep.data();
            }
            if (got == 0) return "";
            CHECK(got <= n, "read-size", "{}: a read of {} bytes returned {}", what, n, got);
            CHECK(got <= want.size() - pos, "surplus", "{}: {} bytes after {} of {}", what, got, pos, want.size());
            CHECK(std::memcmp(p, want.data() + pos, got) == 0, "bytes", "{}: the bytes at {} are {} instead of {}", what, pos, quote(Bytes(reinterpret_cast<const char *>(p), got), 60), quote(want.substr(pos, got), 60));
            pos += got;
            c.count("reads");
        }
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &x) {
        return exc_type(x) + ": " + x.what();
    }
}

}  // namespace

void run_case(Case &c)
{
    setup();
    Rng &r = c.rng;
    Descriptors descriptors{r.chance(0.05)};
    if (!descriptors.fds.empty()) c.count("cases with file descriptors above 1024");
    static std::size_t serial = 0;
    // Channels of the same name in different directories are different channels.
    std::vector<std::string> dirs;
    auto make_dir = [&] {
        dirs.push_back(fmt::format("{}/d-{}", c.scratch, serial++));
        ::mkdir(dirs.back().c_str(), 0700);
        return dirs.back();
    };
    std::string base = make_dir() + "/channel";
    auto fifo = [&](const std::string &b, std::size_t k) { return fmt::format("{}_{}", b, k); };
    std::vector<std::string> made;
    auto make_fifo = [&](const std::string &b, std::size_t k) {
        if (::mkfifo(fifo(b, k).c_str(), 0600) == 0) made.push_back(fifo(b, k));
    };
    struct Cleanup {
        std::vector<std::string> &v, &dirs;
        ~Cleanup()
        {
            for (auto &x : v) ::unlink(x.c_str());
            for (auto &x : dirs) ::rmdir(x.c_str());
        }
    } cleanup{made, dirs};

    double d = static_cast<double>(r.below(10000)) / 10000;
    // 0 stream epochs, 1 readers, 2 in use, 3 stalling writer, 4 no writer, 5 missing FIFO, 6 late FIFO
    unsigned mode = d < 0.5 ? 0 : d < 0.8 ? 1 : d < 0.965 ? 2 : d < 0.978 ? 3 : d < 0.988 ? 4 : d < 0.994 ? 5 : 6;
    bool gzip = mode != 2 && r.chance(0.2);
    bool interrupts = r.chance(0.2);
    auto comp = gzip ? Compression::gzip : Compression::none;
    std::optional<std::size_t> first = r.chance(0.25) ? std::optional<std::size_t>{r.in(1, 7)} : std::nullopt;
    std::size_t start = first.value_or(0);
    std::size_t epochs = mode >= 2 ? r.in(1, 2) : r.in(1, 4);
    unsigned text_kind = static_cast<unsigned>(r.below(3));
    auto content = [&](std::size_t epoch) {
        Bytes b;
        std::size_t n = r.chance(0.05) ? 1 : r.chance(0.15) ? r.in(60000, 300000) : r.chance(0.3) ? r.in(1, 30) : r.in(1, 5000);
        if (mode == 1) n = std::min<std::size_t>(n, 20000);
        std::size_t line = 0;
        while (b.size() < n) b += fmt::format("{},{},{}\n", epoch, line++, Bytes(r.below(12), static_cast<char>('a' + r.below(26))));
        if (r.chance(0.3)) b.pop_back();
        return b;
    };
    auto feed = [&](const std::string &b, std::size_t k, const Bytes &raw) {
        make_fifo(b, k);
        Feed f;
        f.path = fifo(b, k);
        f.content = raw;
        f.seed = r.next();
        f.max_chunk = r.chance(0.3) ? r.in(1, 8) + raw.size() / 60 : r.chance(0.5) ? r.in(1, 5000) : 200000;
        if (r.chance(0.5)) {
            f.pause_us = r.pick<unsigned>({100, 1000, 8000});
            f.pause_p = std::min(0.5, 12.0 * static_cast<double>(f.max_chunk) / static_cast<double>(raw.size() + 1));
        }
        if (r.chance(0.3)) f.late_ms = static_cast<unsigned>(r.below(25));
        return f;
    };
    std::vector<Bytes> plain, raw;
    std::vector<Feed> feeds;
    for (std::size_t e = 0; e < epochs; e++) {
        plain.push_back(content(e));
        raw.push_back(gzip ? deflate_bytes(plain[e], 1) : plain[e]);
        feeds.push_back(feed(base, start + e, raw[e]));
    }
    std::chrono::seconds patient{45};
    std::string sizes;
    for (auto &f : feeds) sizes += fmt::format("{} bytes in chunks of {}, pauses {:.2f} of {} us, late {} ms; ", f.content.size(), f.max_chunk, f.pause_p, f.pause_us, f.late_ms);
    c.describe(fmt::format("mode {} gzip={} interrupts={} first={} epochs={}: {}", mode, gzip, interrupts, first ? static_cast<int>(*first) : -1, epochs, sizes));
    c.sig = c.description();
    c.count(fmt::format("cases of mode {}", mode));

    auto open_stream = [&](std::chrono::seconds timeout, std::optional<std::size_t> id) -> Intrusive_ptr<Input_stream> {
        if (!gzip && r.chance(0.5)) return make_sagemaker_pipe_input_stream(base, timeout, id);
        return make_intrusive<Sagemaker_pipe>(base, timeout, id, comp)->open_read();
    };
    auto expect_failure = [&](auto &&fn, const char *key, const std::string &what) {
        std::string got;
        try {
            fn();
        }
        catch (const Violation &) {
            throw;
        }
        catch (const std::exception &x) {
            got = exc_type(x);
        }
        CHECK(!got.empty(), key, "{} raises no exception", what);
    };

    if (mode == 0) {
        if (r.chance(0.1)) {
            for (std::string name : {std::string{}, dirs.back() + "/", dirs.back() + "\\"}) {
                expect_failure([&] { make_intrusive<Sagemaker_pipe>(name, patient); }, "name-store", "a store for the channel '" + name + "'");
                expect_failure([&] { make_sagemaker_pipe_input_stream(name, patient); }, "name-stream", "a stream of the channel '" + name + "'");
            }
            expect_failure([&] { make_intrusive<Sagemaker_pipe>(base, patient, std::nullopt, Compression::infer); }, "infer", "a store that has to infer the compression");
            c.count("names refused");
        }
        Writer w{feeds};
        Interrupter in{interrupts};
        Intrusive_ptr<Sagemaker_pipe> store;
        if (r.chance(0.5)) store = make_intrusive<Sagemaker_pipe>(base, patient, first, comp);
        for (std::size_t e = 0; e < epochs; e++) {
            auto s = store ? store->open_read() : open_stream(patient, e == 0 ? first : std::nullopt);
            std::size_t pos = 0;
            bool partial = r.chance(0.1);
            if (partial) {
                // The consumer leaves early.
                std::vector<std::byte> b(r.in(1, 100));
                auto n = s->read(Mutable_memory_span{b.data(), b.size()});
                CHECK(n <= plain[e].size() && std::memcmp(b.data(), plain[e].data(), n) == 0 && n != 0, "bytes", "epoch {}: {} bytes are read, not the first ones", e, n);
            }
            else {
                auto x = read_stream(c, *s, plain[e], r, pos, fmt::format("epoch {}", e));
                CHECK(x.empty(), "exception", "epoch {} at {} of {}: {}", e, pos, plain[e].size(), x);
                CHECK(pos == plain[e].size(), "lost", "epoch {} ended after {} of {} bytes", e, pos, plain[e].size());
                std::byte b[4];
                CHECK(s->read(Mutable_memory_span{b, 4}) == 0, "surplus", "epoch {}: data after the end", e);
                c.count("epochs compared");
                c.count("bytes compared", pos);
            }
            if (r.chance(0.4)) {
                s->close();
                if (r.chance(0.5)) s->close();
                std::byte b[4];
                expect_failure([&] { s->read(Mutable_memory_span{b, 4}); }, "closed-read", "a read of a closed stream");
            }
        }
        c.count("interrupts", in.sent);
        return;
    }
    if (mode == 1) {
        Writer w{feeds};
        Interrupter in{interrupts};
        Data_reader_params p;
        p.dataset = {make_intrusive<Sagemaker_pipe>(base, patient, first, comp)};
        p.batch_size = r.in(1, 50);
        p.num_prefetched_examples = r.below(4);
        p.num_parallel_reads = r.below(3);
        p.last_example_handling = Last_example_handling::none;
        Intrusive_ptr<Data_reader> rd;
        if (text_kind == 0)
            rd = make_intrusive<Text_line_reader>(p);
        else {
            Csv_params cp;
            cp.header_row_index = {};
            cp.default_data_type = Data_type::string;
            cp.column_names = {"e", "i", "s"};
            rd = make_intrusive<Csv_reader>(p, cp);
        }
        for (std::size_t e = 0; e < epochs; e++) {
            if (e != 0) rd->reset();
            std::vector<std::string> lines;
            std::istringstream is{plain[e]};
            for (std::string l; std::getline(is, l);) lines.push_back(l);
            std::size_t n = 0;
            while (auto ex = rd->read_example()) {
                check_example(*ex);
                std::size_t k = batch_dim(*ex);
                for (std::size_t i = 0; i < k; i++, n++) {
                    std::string got;
                    for (auto &t : ex->features()) {
                        if (!got.empty() || &t != &ex->features()[0]) got += ",";
                        got += static_cast<const Dense_tensor &>(*t).data().as<std::string>()[i];
                    }
                    CHECK(n < lines.size(), "surplus", "epoch {}: surplus row {}", e, quote(got));
                    CHECK(got == lines[n], "row", "epoch {}: row {} is {} instead of {}", e, n, quote(got), quote(lines[n]));
                }
            }
            CHECK(n == lines.size(), "lost", "epoch {} delivered {} of {} rows", e, n, lines.size());
            c.count("epochs compared");
            c.count("rows compared", n);
        }
        return;
    }
    if (mode == 2) {
        Writer w{feeds};
        std::string other = r.chance(0.5) ? base + "x" : make_dir() + "/channel";
        Bytes ob = content(9);
        make_fifo(other, 0);
        Feed of = feed(other, 0, ob);
        Writer ow{{of}};
        Intrusive_ptr<Input_stream> s;
        bool threads = r.chance(0.4);
        if (threads) {
            std::size_t k = r.in(2, 5);
            std::vector<Intrusive_ptr<Input_stream>> got(k);
            std::atomic_size_t ready{};
            std::vector<std::string> err(k);
            {
                std::vector<std::thread> ts;
                for (std::size_t t = 0; t < k; t++)
                    ts.emplace_back([&, t] {
                        ready++;
                        while (ready != k) {
                        }
                        try {
                            got[t] = make_sagemaker_pipe_input_stream(base, patient, first);
                        }
                        catch (const std::exception &x) {
                            err[t] = x.what();
                        }
                    });
                for (auto &t : ts) t.join();
            }
            std::size_t n = 0;
            for (auto &x : got)
                if (x) {
                    n++;
                    s = x;
                }
            CHECK(n == 1, "in-use", "{} of {} concurrent openings of a channel succeed ({})", n, k, fmt::join(err, "; "));
            c.count("concurrent openings", k);
        }
        else
            s = open_stream(patient, first);
        std::size_t tries = r.in(1, 3);
        for (std::size_t t = 0; t < tries; t++) {
            // A wrong success must end at once and not wait for the FIFO.
            expect_failure([&] { open_stream(std::chrono::seconds{1}, std::nullopt); }, "in-use", "opening a channel that is in use");
            c.count("refused openings");
        }
        auto o = make_sagemaker_pipe_input_stream(other, patient, {});
        for (std::size_t e = 0; e < epochs; e++) {
            if (e != 0) {
                auto old = s;
                bool drop = r.chance(0.5);
                if (drop) {
                    s = nullptr;
                    old = nullptr;
                }
                else
                    s->close();
                s = make_sagemaker_pipe_input_stream(base, patient, {});
                if (!drop) {
                    // The second release of the old stream must not release the channel of the new one.
                    if (r.chance(0.5)) old->close();
                    old = nullptr;
                    expect_failure([&] { open_stream(std::chrono::seconds{1}, std::nullopt); }, "in-use", "opening a channel that another stream acquired after its first owner has been closed");
                }
            }
            std::size_t pos = 0;
            auto x = read_stream(c, *s, plain[e], r, pos, fmt::format("epoch {}", e));
            CHECK(x.empty() && pos == plain[e].size(), "lost", "epoch {} ended after {} of {} bytes {}", e, pos, plain[e].size(), x);
            c.count("epochs compared");
        }
        std::size_t pos = 0;
        auto x = read_stream(c, *o, ob, r, pos, "the other channel");
        CHECK(x.empty() && pos == ob.size(), "lost", "the other channel ended after {} of {} bytes {}", pos, ob.size(), x);
        return;
    }
    // The failures. Afterwards the next epoch must be readable.
    auto begin = Clock::now();
    std::chrono::seconds timeout{r.chance(0.2) ? 2 : 1};
    std::size_t failed_number = start;
    Bytes next = content(100);
    Bytes next_raw = gzip ? deflate_bytes(next, 1) : next;
    if (mode == 3) {
        Feed f = feeds[0];
        f.stall = r.chance(0.15) ? 0 : r.below(f.content.size() + 1);
        f.late_ms = 0;
        c.describe(c.description() + fmt::format(" stall after {}", *f.stall));
        auto w = std::make_unique<Writer>(std::vector<Feed>{f});
        Interrupter in{interrupts};
        bool opened = false;
        expect_failure(
            [&] {
                auto s = open_stream(timeout, first);
                opened = true;
                std::size_t pos = 0;
                std::string x;
                if (gzip) {
                    // The inflater may have everything before the writer stalls.
                    x = read_stream(c, *s, plain[0], r, pos, "the stalled epoch");
                    if (x.empty() && pos == plain[0].size() && *f.stall == f.content.size()) throw std::runtime_error{"complete"};
                }
                else
                    x = read_stream(c, *s, plain[0].substr(0, *f.stall), r, pos, "the stalled epoch");
                if (!x.empty()) {
                    if (!gzip) CHECK(pos == *f.stall, "lost", "a timeout after {} of {} bytes that have been written", pos, *f.stall);
                    throw std::runtime_error{x};
                }
                violate("stall-as-end", "a writer that stalls after {} of {} bytes looks like the end of the data after {} bytes", *f.stall, f.content.size(), pos);
            },
            "stall", "a stalling writer");
        c.count("timeouts");
        (void)opened;
    }
    else if (mode == 4) {
        make_fifo(base, start);
        Interrupter in{interrupts};
        expect_failure([&] { open_stream(timeout, first); }, "no-writer", "opening a FIFO nobody writes to");
        c.count("timeouts");
    }
    else {
        // The FIFO does not exist yet.
        for (std::size_t e = 0; e < epochs; e++) ::unlink(fifo(base, start + e).c_str());
        failed_number = start == 0 ? 0 : start - 1;
        if (mode == 5) {
            expect_failure([&] { open_stream(timeout, first); }, "missing", "opening a missing FIFO");
            c.count("missing FIFOs");
            failed_number = start;
            // The number has not been used up.
            Feed f = feed(base, start, next_raw);
            Writer w{{f}};
            auto s = open_stream(patient, std::nullopt);
            std::size_t pos = 0;
            auto x = read_stream(c, *s, next, r, pos, "the FIFO after a failed opening");
            CHECK(x.empty() && pos == next.size(), "lost", "the FIFO that has been missing ended after {} of {} bytes {}", pos, next.size(), x);
            c.count("epochs compared");
            return;
        }
        std::thread late{[&] {
            std::this_thread::sleep_for(milliseconds{300});
            ::mkfifo(fifo(base, start).c_str(), 0600);
        }};
        struct Join {
            std::thread &t;
            ~Join() { t.join(); }
        } join{late};
        Writer w{{feeds[0]}};
        auto s = open_stream(patient, first);
        std::size_t pos = 0;
        auto x = read_stream(c, *s, plain[0], r, pos, "a late FIFO");
        CHECK(x.empty() && pos == plain[0].size(), "lost", "a late FIFO ended after {} of {} bytes {}", pos, plain[0].size(), x);
        c.count("epochs compared");
        return;
    }
    CHECK(Clock::now() - begin < std::chrono::seconds{25}, "slow-timeout", "a timeout of {} s took {} s", timeout.count(), std::chrono::duration_cast<std::chrono::seconds>(Clock::now() - begin).count());
    // A failed epoch consumes its number; the channel is free.
    Feed f = feed(base, failed_number + 1, next_raw);
    if (epochs > 1) f.path = fifo(base, failed_number + 1);
    Writer w{{f}};
    auto s = open_stream(patient, std::nullopt);
    std::size_t pos = 0;
    auto x = read_stream(c, *s, next, r, pos, "the epoch after a timeout");
    CHECK(x.empty() && pos == next.size(), "lost", "the epoch after a timeout ended after {} of {} bytes {}", pos, next.size(), x);
    c.count("epochs compared");
}
}  // namespace V
