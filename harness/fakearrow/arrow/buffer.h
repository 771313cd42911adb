#pragma once
#include <cstdint>
#include <memory>
#include "arrow/status.h"
namespace arrow {
class Buffer {
public:
    Buffer(const std::uint8_t *data, std::int64_t size) : data_{data}, size_{size}, capacity_{size} {}
    Buffer(const Buffer &) = delete;
    Buffer &operator=(const Buffer &) = delete;
    virtual ~Buffer() = default;
    const std::uint8_t *data() const { return data_; }
    std::int64_t size() const { return size_; }
    std::int64_t capacity() const { return capacity_; }
    bool is_mutable() const { return is_mutable_; }

protected:
    bool is_mutable_{};
    const std::uint8_t *data_;
    std::int64_t size_;
    std::int64_t capacity_;
};
}  // namespace arrow
