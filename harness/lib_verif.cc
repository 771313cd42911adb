#include <dlfcn.h>
#include <pthread.h>
#include "verif.h"

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cxxabi.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <iostream>

namespace V {

static std::uint64_t splitmix(std::uint64_t &x)
{
    std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

void Rng::reseed(std::uint64_t seed)
{
    s[0] = splitmix(seed);
    s[1] = splitmix(seed);
    if (s[0] == 0 && s[1] == 0) s[0] = 1;
}

std::uint64_t Rng::next()
{
    std::uint64_t a = s[0], b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
}

std::uint64_t hash_str(const std::string &s, std::uint64_t h)
{
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}

std::string quote(const std::string &s, std::size_t limit)
{
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size(); i++) {
        if (i >= limit) {
            r += "\"... (" + std::to_string(s.size()) + " bytes)";
            return r;
        }
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c == '\n')
            r += "\\n";
        else if (c == '\r')
            r += "\\r";
        else if (c == '\t')
            r += "\\t";
        else if (c < 0x20 || c >= 0x7f)
            r += fmt::format("\\x{:02x}", c);
        else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

static int cur_fd = -1;

void Case::describe(const std::string &text)
{
    desc_ = text;
    if (cur_fd >= 0) {
        std::string t = std::to_string(index) + "\n" + text.substr(0, 20000) + "\n\0";
        t.push_back('\0');
        [[maybe_unused]] auto n = ::pwrite(cur_fd, t.data(), t.size(), 0);
    }
}

// ---------------------------------------------------------------------------

struct Log_capture::State {
    std::mutex mtx;
    std::vector<std::string> lines;
};

Log_capture::Log_capture() : state{std::make_shared<State>()}
{
    mlio::set_log_level(mlio::Log_level::warning);
    old = mlio::set_log_message_handler([s = state](mlio::Log_level, std::string_view m) {
        std::lock_guard<std::mutex> l{s->mtx};
        s->lines.emplace_back(m);
    });
}

Log_capture::~Log_capture()
{
    mlio::set_log_message_handler(old);
    mlio::set_log_level(mlio::Log_level::off);
}

std::vector<std::string> Log_capture::take()
{
    std::lock_guard<std::mutex> l{state->mtx};
    return std::exchange(state->lines, {});
}

// ---------------------------------------------------------------------------

void Tune::reset()
{
    chunk(0);
    utf8(0);
    inflate(0);
    instance(0);
    cut_off(0);
}

std::string Tune::randomize(Rng &r, bool allow_default)
{
    auto draw = [&](std::size_t min) -> std::size_t {
        if (allow_default && r.chance(0.15)) return 0;
        switch (r.below(4)) {
        case 0:
            return min + r.below(4);
        case 1:
            return min + r.below(16);
        case 2:
            return min + r.below(64);
        default:
            return min + r.below(400);
        }
    };
    std::size_t c = draw(1), u = draw(16), i = draw(1), n = draw(1);
    chunk(c);
    utf8(u);
    inflate(i);
    instance(n);
    return fmt::format("chunk={} utf8={} inflate={} instance={}", c, u, i, n);
}

// ---------------------------------------------------------------------------

namespace {
std::atomic<std::uint64_t> pert_seed{0}, pert_level{0}, pert_hash{0}, pert_count{0};

std::uint64_t tid_hash()
{
    return std::hash<std::thread::id>{}(std::this_thread::get_id());
}

void on_point(const char *name)
{
    std::uint64_t n = pert_count.fetch_add(1);
    // The order in which the points are passed identifies the interleaving.
    pert_hash.store(pert_hash.load(std::memory_order_relaxed) * 1099511628211ULL + hash_str(name),
                    std::memory_order_relaxed);
    std::uint64_t x = pert_seed.load(std::memory_order_relaxed) ^ (n * 0x9e3779b97f4a7c15ULL) ^ tid_hash();
    std::uint64_t v = splitmix(x);
    std::uint64_t level = pert_level.load(std::memory_order_relaxed);
    if (level == 0) return;
    switch (v % 8) {
    case 0:
    case 1:
        std::this_thread::yield();
        break;
    case 2:
        std::this_thread::sleep_for(std::chrono::microseconds((v >> 8) % 50));
        break;
    case 3:
        if (level >= 2) std::this_thread::sleep_for(std::chrono::microseconds((v >> 8) % 300));
        break;
    case 4:
        if (level >= 3) std::this_thread::sleep_for(std::chrono::microseconds((v >> 8) % 2000));
        break;
    default:
        break;
    }
}

// While the schedule is perturbed, a thread hesitates between the decision to
// wait for a condition variable and the wait itself; a notification that is not
// ordered with the decision by the mutex gets lost then.
std::atomic_bool pert_waits{};

void before_wait()
{
    if (!pert_waits.load(std::memory_order_relaxed)) return;
    std::uint64_t x = pert_seed.load(std::memory_order_relaxed) ^ (pert_count.load(std::memory_order_relaxed) * 0x9e3779b97f4a7c15ULL) ^ tid_hash();
    std::uint64_t v = splitmix(x);
    if (v % 2 == 0) std::this_thread::sleep_for(std::chrono::microseconds((v >> 8) % (pert_level.load(std::memory_order_relaxed) >= 2 ? 600 : 100)));
}
}  // namespace

Perturb::Perturb(std::uint64_t seed, unsigned level)
{
    pert_seed = seed;
    pert_level = level;
    pert_hash = 0;
    pert_count = 0;
    pert_waits = level != 0;
    mlio::verif::point_callback.store(on_point);
}

Perturb::~Perturb()
{
    mlio::verif::point_callback.store(nullptr);
    pert_waits = false;
}

std::uint64_t Perturb::interleaving()
{
    return pert_hash;
}

std::uint64_t Perturb::num_points()
{
    return pert_count;
}

// ---------------------------------------------------------------------------

using namespace mlio;

static std::string join(const std::vector<std::size_t> &v)
{
    std::string r;
    for (auto x : v) r += (r.empty() ? "" : ",") + std::to_string(x);
    return r;
}

static std::string dt_name(Data_type dt)
{
    std::ostringstream s;
    s << dt;
    return s.str();
}

std::string dump_attr(const Attribute &a)
{
    return fmt::format("{}:{}[{}]{}", quote(a.name(), 1000000), dt_name(a.data_type()), join(a.shape()), a.sparse() ? "sparse" : "");
}

std::string dump_schema(const Schema *s)
{
    if (s == nullptr) return "(none)";
    std::string r;
    for (auto &a : s->attributes()) r += dump_attr(a) + ";";
    return r;
}

namespace {

std::size_t prod(const Size_vector &s)
{
    std::size_t p = 1;
    for (auto d : s) p *= d;
    return p;
}

struct Elem_op {
    Device_array_view arr;
};

template<Data_type dt>
struct value_op {
    void operator()(Device_array_view arr, std::size_t i, std::string &out, bool &zero)
    {
        auto v = arr.as<data_type_t<dt>>();
        if constexpr (dt == Data_type::string) {
            out += str_value(v[i]);
            zero = v[i].empty();
        }
        else {
            out += num(v[i]);
            zero = v[i] == data_type_t<dt>{} && !std::signbit(static_cast<double>(v[i]));
        }
    }
};

}  // namespace

void check_example(const Example &e)
{
    auto &attrs = e.schema().attributes();
    CHECK(attrs.size() == e.features().size(), "example-structure", "{} attributes but {} features", attrs.size(), e.features().size());
    std::optional<std::size_t> batch{};
    for (std::size_t f = 0; f < attrs.size(); f++) {
        auto &t = e.features()[f];
        CHECK(t != nullptr, "example-structure", "feature {} is null", f);
        CHECK(t->data_type() == attrs[f].data_type(), "example-structure", "feature {} has another data type than its attribute", f);
        auto &sh = t->shape();
        CHECK(sh.size() == attrs[f].shape().size() && !sh.empty(), "example-structure", "feature {} has the shape [{}], its attribute [{}]", f, join(sh), join(attrs[f].shape()));
        CHECK(std::equal(sh.begin() + 1, sh.end(), attrs[f].shape().begin() + 1), "example-structure", "feature {} has the shape [{}], its attribute [{}]", f, join(sh), join(attrs[f].shape()));
        CHECK(sh[0] <= attrs[f].shape()[0], "example-structure", "feature {} has the shape [{}], its attribute [{}]", f, join(sh), join(attrs[f].shape()));
        if (batch) CHECK(*batch == sh[0], "example-structure", "features disagree in the batch dimension: {} and {}", *batch, sh[0]);
        batch = sh[0];
        auto *dense = dynamic_cast<Dense_tensor *>(t.get());
        auto *coo = dynamic_cast<Coo_tensor *>(t.get());
        CHECK((coo != nullptr) == attrs[f].sparse(), "example-structure", "feature {} does not have the sparseness of its attribute", f);
        if (dense != nullptr) {
            auto &st = dense->strides();
            CHECK(st.size() == sh.size(), "example-structure", "feature {} has {} strides for the shape [{}]", f, st.size(), join(sh));
            std::ptrdiff_t s = 1;
            for (std::size_t d = sh.size(); d-- > 0;) {
                CHECK(st[d] == s, "example-structure", "feature {} has the stride {} in dimension {} for the shape [{}]", f, st[d], d, join(sh));
                s *= static_cast<std::ptrdiff_t>(sh[d]);
            }
            CHECK(dense->data().size() >= prod(sh), "example-structure", "feature {} has {} values for the shape [{}]", f, dense->data().size(), join(sh));
            CHECK(dense->data().data_type() == t->data_type(), "example-structure", "feature {}: data type of the array", f);
        }
        else if (coo != nullptr) {
            std::size_t nnz = coo->data().size();
            for (std::size_t d = 0; d < sh.size(); d++) {
                auto ind = coo->indices(d);
                CHECK(ind.size() == nnz, "example-structure", "feature {} has {} coordinates in dimension {} but {} values", f, ind.size(), d, nnz);
                auto v = ind.as<std::size_t>();
                for (std::size_t i = 0; i < nnz; i++) CHECK(v[i] < sh[d], "coo-index-range", "feature {} has the coordinate {} in dimension {} of the shape [{}]", f, v[i], d, join(sh));
            }
        }
        else
            violate("example-structure", "feature {} has an unknown tensor type", f);
        CHECK(e.find_feature(attrs[f].name()).get() == t.get(), "find-feature", "find_feature({}) does not return feature {}", attrs[f].name(), f);
    }
    if (batch) CHECK(e.padding <= *batch, "example-structure", "padding {} is larger than the batch {}", e.padding, *batch);
}

std::size_t batch_dim(const Example &e)
{
    return e.features().empty() ? 0 : e.features()[0]->shape()[0];
}

std::vector<std::string> example_rows(const Example &e)
{
    check_example(e);
    std::size_t batch = batch_dim(e);
    std::vector<std::string> rows(batch);
    // The order of the features is not specified for all formats.
    std::vector<std::size_t> order(e.features().size());
    for (std::size_t f = 0; f < order.size(); f++) order[f] = f;
    std::sort(order.begin(), order.end(), [&](std::size_t x, std::size_t y) { return e.schema().attributes()[x].name() < e.schema().attributes()[y].name(); });
    for (std::size_t f : order) {
        auto &t = *e.features()[f];
        std::string head = "|" + quote(e.schema().attributes()[f].name(), 1000000) + "=";
        if (auto *dense = dynamic_cast<Dense_tensor *>(&t)) {
            const Dense_tensor &d = *dense;
            std::size_t n = prod(t.shape());
            std::size_t per = batch == 0 ? 0 : n / batch;
            for (std::size_t r = 0; r < batch; r++) {
                std::string &out = rows[r];
                out += head;
                for (std::size_t i = 0; i < per; i++) {
                    if (i != 0) out += ',';
                    bool zero{};
                    dispatch<value_op>(t.data_type(), d.data(), r * per + i, out, zero);
                    if (r >= batch - e.padding && !zero) violate("padding-not-zero", "padding row {} of feature {} holds {}", r, f, out.substr(out.rfind('=')));
                }
            }
        }
        else if (auto *coo = dynamic_cast<Coo_tensor *>(&t)) {
            const Coo_tensor &c = *coo;
            for (std::size_t r = 0; r < batch; r++) rows[r] += head;
            auto row_of = c.indices(0).as<std::size_t>();
            std::vector<std::string> parts(batch);
            for (std::size_t i = 0; i < c.data().size(); i++) {
                std::size_t r = row_of[i];
                if (r >= batch - e.padding) violate("padding-not-zero", "padding row {} of the sparse feature {} holds a value", r, f);
                std::string p = "(";
                for (std::size_t d = 1; d < t.shape().size(); d++) p += (d > 1 ? "," : "") + std::to_string(c.indices(d).as<std::size_t>()[i]);
                p += "):";
                bool zero{};
                dispatch<value_op>(t.data_type(), c.data(), i, p, zero);
                rows[r] += p + " ";
            }
        }
    }
    rows.resize(batch - e.padding);
    return rows;
}

std::string dump_example(const Example &e)
{
    std::vector<std::string> attrs;
    for (auto &a : e.schema().attributes()) attrs.push_back(dump_attr(a));
    std::sort(attrs.begin(), attrs.end());
    std::string r;
    for (auto &a : attrs) r += a + ";";
    r += fmt::format(" batch={} padding={}\n", batch_dim(e), e.padding);
    for (auto &s : example_rows(e)) r += s + "\n";
    return r;
}

std::string exc_type(const std::exception &e)
{
    int st{};
    char *d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    std::string r = d != nullptr ? d : typeid(e).name();
    std::free(d);
    return r;
}

Memory_slice make_slice(const Bytes &b)
{
    auto blk = make_intrusive<Heap_memory_block>(b.size());
    if (!b.empty()) std::memcpy(blk->data(), b.data(), b.size());
    return Memory_slice{std::move(blk)};
}

Bytes to_bytes(Memory_span s)
{
    return Bytes(reinterpret_cast<const char *>(s.data()), s.size());
}

static std::string json(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c < 0x20 || c >= 0x7f)
            r += fmt::format("\\u{:04x}", c);
        else
            r += static_cast<char>(c);
    }
    return r + "\"";
}

}  // namespace V

using namespace V;

// h_X --seed S --from A --step K --count N --tier T --dir D [--case I]
int main(int argc, char **argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    bool thorough = a["--tier"] == "thorough";
    if (a.count("--info") != 0) {
        std::cout << "{\"cases\":" << num_cases(thorough) << ",\"rule\":" << json(rule) << ",\"property\":" << json(property_id) << "}" << std::endl;
        return 0;
    }
    std::uint64_t seed = std::stoull(a.at("--seed"));
    std::uint64_t from = std::stoull(a.at("--from")), step = std::stoull(a.at("--step")), to = std::stoull(a.at("--to"));
    std::string dir = a.at("--dir"), tag = a.at("--tag");
    std::string scratch = dir + "/scratch-" + tag;
    std::filesystem::create_directories(scratch);
    cur_fd = ::open((dir + "/cur-" + tag).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644);
    FILE *out = std::fopen((dir + "/out-" + tag).c_str(), "ae");
    mlio::set_log_level(mlio::Log_level::off);

    mlio::initialize();
    std::map<std::string, std::uint64_t> counters;
    std::map<std::string, std::set<std::uint64_t>> sets;
    std::set<std::string> fail_keys;
    std::size_t fails = 0;
    std::uint64_t i = from;
    for (; i < to && fails < 5; i += step) {
        Case c;
        c.seed = seed;
        c.index = i;
        c.thorough = thorough;
        c.scratch = scratch;
        c.counters = &counters;
        c.sets = &sets;
        c.rng.reseed(seed * 0x100000001b3ULL ^ hash_str(property_id) ^ (i * 0x9e3779b97f4a7c15ULL));
        c.describe("");
        std::string key, msg;
        try {
            run_case(c);
        }
        catch (const Violation &v) {
            key = v.key;
            msg = v.msg;
        }
        catch (const std::exception &e) {
            key = "unexpected-exception";
            msg = exc_type(e) + ": " + e.what();
        }
        if (!key.empty()) {
            fails++;
            std::fprintf(out, "{\"fail\":%llu,\"key\":%s,\"msg\":%s,\"desc\":%s}\n", static_cast<unsigned long long>(i), json(key).c_str(), json(msg.substr(0, 6000)).c_str(), json(c.desc_.substr(0, 8000)).c_str());
            std::fflush(out);
        }
        std::fprintf(out, "{\"case\":%llu,\"nt\":%d,\"sig\":\"%016llx\"", static_cast<unsigned long long>(i), c.nontrivial ? 1 : 0, static_cast<unsigned long long>(hash_str(c.sig.empty() ? c.desc_ : c.sig)));
        if (i < 40) std::fprintf(out, ",\"desc\":%s", json(c.desc_.substr(0, 1500)).c_str());
        std::fprintf(out, "}\n");
    }
    std::fprintf(out, "{\"done\":1,\"next\":%llu,\"counters\":{", static_cast<unsigned long long>(i));
    bool first = true;
    for (auto &[k, v] : counters) {
        std::fprintf(out, "%s%s:%llu", first ? "" : ",", json(k).c_str(), static_cast<unsigned long long>(v));
        first = false;
    }
    std::fprintf(out, "},\"sets\":{");
    first = true;
    for (auto &[k, v] : sets) {
        std::fprintf(out, "%s%s:[", first ? "" : ",", json(k).c_str());
        bool f2 = true;
        for (auto h : v) {
            std::fprintf(out, "%s\"%llx\"", f2 ? "" : ",", static_cast<unsigned long long>(h));
            f2 = false;
        }
        std::fprintf(out, "]");
        first = false;
    }
    std::fprintf(out, "}}\n");
    std::fclose(out);
    std::error_code ec;
    std::filesystem::remove_all(scratch, ec);
    return fails != 0 ? 3 : 0;
}

#ifndef VERIF_TSAN
extern "C" int pthread_cond_wait(pthread_cond_t *cond, pthread_mutex_t *mutex)
{
    using Fn = int (*)(pthread_cond_t *, pthread_mutex_t *);
    // There is an old version of the function for another kind of variable.
    static const Fn real = [] {
        void *f = ::dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
        if (f == nullptr) f = ::dlsym(RTLD_NEXT, "pthread_cond_wait");
        return reinterpret_cast<Fn>(f);
    }();
    V::before_wait();
    return real(cond, mutex);
}
#endif
