#pragma once
#include <optional>
#include "arrow/status.h"
namespace arrow {
template<typename T> class Result {
public:
    Result(const Status &s) : status_{s} {}
    Result(T v) : value_{std::move(v)} {}
    template<typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, T> && !std::is_same_v<std::decay_t<U>, Status>>> Result(U &&v) : value_{std::forward<U>(v)} {}
    bool ok() const { return status_.ok(); }
    const Status &status() const { return status_; }
    const T &ValueOrDie() const { return *value_; }
    const T &operator*() const { return *value_; }

private:
    Status status_;
    std::optional<T> value_;
};
}  // namespace arrow
