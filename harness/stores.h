// Data store and stream doubles.
#pragma once
#include "verif.h"

namespace V {

enum class Err { stream, runtime, system, bad_alloc, not_supported };
[[noreturn]] void throw_err(Err e);

// What a Test_store does. Shared by the store and its streams; safe for use by several threads.
struct Plan {
    Bytes content;
    std::string id = "test-store";
    std::size_t max_read{};      // 0: as much as requested
    bool random_reads = false;   // each read returns 1..max_read bytes
    std::uint64_t seed{};
    bool seekable = false;
    bool zero_copy = false;
    unsigned delay_us{};         // maximum random delay of a read
    // Called with the number of the opening (from 0); may throw.
    std::function<void(std::size_t)> on_open{};
    // Called with the number of the opening and the offset before each read; may throw.
    // Returns the limit of the number of bytes to return (0: no limit).
    std::function<std::size_t(std::size_t, std::size_t)> on_read{};
    // Observations
    std::atomic_size_t opens{}, live{}, delivered{}, reads_after_end{};
};

class Test_store final : public mlio::Data_store {
public:
    explicit Test_store(std::shared_ptr<Plan> p) : plan{std::move(p)} {}
    mlio::Intrusive_ptr<mlio::Input_stream> open_read() const override;
    std::string repr() const override { return "<Test_store>"; }
    const std::string &id() const override { return plan->id; }
    std::shared_ptr<Plan> plan;
};

std::shared_ptr<Plan> make_plan(Bytes content, std::string id = "test-store");
mlio::Intrusive_ptr<mlio::Data_store> make_store(std::shared_ptr<Plan> p);
mlio::Intrusive_ptr<mlio::Data_store> memory_store(const Bytes &b, mlio::Compression c = mlio::Compression::none);

// Compresses with zlib. window_bits 31: gzip, 15: zlib, -15: raw.
Bytes deflate_bytes(const Bytes &b, int level = 6, int strategy = 0, int mem_level = 8, int window_bits = 31, std::size_t flush_every = 0);

void write_file(const std::string &path, const Bytes &b);
// Creates a file that consists of a hole but for some pieces; false if the file system cannot hold it.
bool write_sparse_file(const std::string &path, std::size_t size, const std::vector<std::pair<std::size_t, Bytes>> &pieces);
Bytes read_file(const std::string &path);

}  // namespace V
