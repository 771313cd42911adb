// Common parts of the runtime verification harnesses.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <fmt/format.h>
#include <mlio.h>

#include "mlio/detail/verif_hooks.h"

namespace V {

using Bytes = std::string;

struct Rng {
    std::uint64_t s[2];
    explicit Rng(std::uint64_t seed = 1) { reseed(seed); }
    void reseed(std::uint64_t seed);
    std::uint64_t next();
    // Uniform in [0, n); n must not be 0.
    std::uint64_t below(std::uint64_t n) { return next() % n; }
    // Uniform in [a, b].
    std::uint64_t in(std::uint64_t a, std::uint64_t b) { return a + below(b - a + 1); }
    bool chance(double p) { return static_cast<double>(next() >> 11) * 0x1.0p-53 < p; }
    template<typename T>
    const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template<typename T>
    T pick(std::initializer_list<T> v) { return v.begin()[below(v.size())]; }
};

// A violation of the property. The key identifies the kind of the violation.
struct Violation {
    std::string key, msg;
};

template<typename... A>
[[noreturn]] void violate(std::string key, const char *f, const A &... a)
{
    throw Violation{std::move(key), fmt::format(fmt::runtime(f), a...)};
}

#define CHECK(cond, key, ...)                    \
    do {                                         \
        if (!(cond)) ::V::violate((key), __VA_ARGS__); \
    } while (0)

struct Case {
    std::uint64_t seed{}, index{};
    bool thorough{};
    Rng rng{};
    std::string scratch;  // a directory of this process
    // Set by the harness:
    bool nontrivial = true;
    std::string sig;  // distinctness signature
    std::map<std::string, std::uint64_t> *counters{};
    std::map<std::string, std::set<std::uint64_t>> *sets{};

    // Writes down what is going to be executed, so that a crash can be explained.
    void describe(const std::string &text);
    const std::string &description() const { return desc_; }
    void count(const std::string &name, std::uint64_t n = 1) { (*counters)[name] += n; }
    // Counts distinct observations.
    void observe(const std::string &name, std::uint64_t hash)
    {
        auto &s = (*sets)[name];
        if (s.size() < 200000) s.insert(hash);
    }
    std::string desc_;
};

std::uint64_t hash_str(const std::string &s, std::uint64_t h = 1469598103934665603ULL);

// To be defined by each harness.
extern const char *const property_id;
extern const char *const rule;
std::uint64_t num_cases(bool thorough);
void run_case(Case &c);

std::string quote(const std::string &s, std::size_t limit = 300);

// ---------------------------------------------------------------------------
// Log capturing
struct Log_capture {
    Log_capture();
    ~Log_capture();
    std::vector<std::string> take();
    struct State;
    std::shared_ptr<State> state;
    mlio::Log_message_handler old;
};

// ---------------------------------------------------------------------------
// Tuning knobs (restored to the default by the destructor)
struct Tune {
    Tune() { reset(); }
    ~Tune() { reset(); }
    static void reset();
    static void chunk(std::size_t n) { mlio::verif::chunk_size = n; }
    static void utf8(std::size_t n) { mlio::verif::utf8_buffer_size = n; }
    static void inflate(std::size_t n) { mlio::verif::inflate_read_size = n; }
    static void instance(std::size_t n) { mlio::verif::instance_buffer_size = n; }
    static void cut_off(std::size_t n) { mlio::verif::parallel_cut_off = n; }
    // Draws random small values for all buffer sizes.
    static std::string randomize(Rng &r, bool allow_default = true);
};

// Perturbs the schedule at the pipeline points.
struct Perturb {
    explicit Perturb(std::uint64_t seed, unsigned level);
    ~Perturb();
    // A hash of the order in which the points have been passed.
    static std::uint64_t interleaving();
    static std::uint64_t num_points();
};

// ---------------------------------------------------------------------------
// Canonical form of examples
std::string dump_attr(const mlio::Attribute &a);
std::string dump_schema(const mlio::Schema *s);
// Checks that the parts of an example fit together and to its schema.
void check_example(const mlio::Example &e);
// One text per row of the batch dimension, padding rows excluded. Checks the padding.
std::vector<std::string> example_rows(const mlio::Example &e);
// The complete content.
std::string dump_example(const mlio::Example &e);
std::size_t batch_dim(const mlio::Example &e);
std::string exc_type(const std::exception &e);

// Values in the canonical form.
template<typename T>
std::string num(T v)
{
    if constexpr (std::is_floating_point_v<T>) {
        if (v != v) return "nan";
        return fmt::format("{:a}", v);
    }
    else
        return fmt::format("{}", +v);
}
inline std::string str_value(const std::string &s) { return quote(s, 100000000); }

mlio::Memory_slice make_slice(const Bytes &b);
Bytes to_bytes(mlio::Memory_span s);
inline Bytes slice_bytes(const mlio::Memory_slice &s) { return Bytes(reinterpret_cast<const char *>(s.data()), s.size()); }

}  // namespace V
