// A stand-in for the part of Apache Arrow's API that the Arrow integration uses. Apache Arrow is not
// installed here; the names and the documented meaning are those of Arrow.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
namespace arrow {
enum class StatusCode : char { OK = 0, OutOfMemory = 1, KeyError = 2, TypeError = 3, Invalid = 4, IOError = 5, UnknownError = 9, NotImplemented = 10 };
class Status {
public:
    Status() noexcept = default;
    Status(StatusCode code, std::string msg) : code_{code}, msg_{std::move(msg)} {}
    static Status OK() { return {}; }
    template<typename... A> static Status OutOfMemory(A &&...a) { return make(StatusCode::OutOfMemory, std::forward<A>(a)...); }
    template<typename... A> static Status KeyError(A &&...a) { return make(StatusCode::KeyError, std::forward<A>(a)...); }
    template<typename... A> static Status TypeError(A &&...a) { return make(StatusCode::TypeError, std::forward<A>(a)...); }
    template<typename... A> static Status Invalid(A &&...a) { return make(StatusCode::Invalid, std::forward<A>(a)...); }
    template<typename... A> static Status IOError(A &&...a) { return make(StatusCode::IOError, std::forward<A>(a)...); }
    template<typename... A> static Status UnknownError(A &&...a) { return make(StatusCode::UnknownError, std::forward<A>(a)...); }
    template<typename... A> static Status NotImplemented(A &&...a) { return make(StatusCode::NotImplemented, std::forward<A>(a)...); }
    bool ok() const { return code_ == StatusCode::OK; }
    StatusCode code() const { return code_; }
    const std::string &message() const { return msg_; }
    bool IsInvalid() const { return code_ == StatusCode::Invalid; }
    bool IsIOError() const { return code_ == StatusCode::IOError; }

private:
    template<typename... A> static Status make(StatusCode c, A &&...a)
    {
        std::string s;
        (s.append(a), ...);
        return {c, s};
    }
    StatusCode code_{StatusCode::OK};
    std::string msg_;
};
}  // namespace arrow
#define ARROW_RETURN_NOT_OK(expr)              \
    do {                                       \
        ::arrow::Status _st = (expr);          \
        if (!_st.ok())                         \
            return _st;                        \
    } while (false)
#define RETURN_NOT_OK(expr) ARROW_RETURN_NOT_OK(expr)
