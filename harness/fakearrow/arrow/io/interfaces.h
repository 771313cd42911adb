#pragma once
#include "arrow/buffer.h"
#include "arrow/result.h"
namespace arrow::io {
class FileInterface {
public:
    virtual ~FileInterface() = default;
    virtual Status Close() = 0;
    virtual Result<std::int64_t> Tell() const = 0;
    virtual bool closed() const = 0;
};
class Seekable {
public:
    virtual ~Seekable() = default;
    virtual Status Seek(std::int64_t position) = 0;
};
class Readable {
public:
    virtual ~Readable() = default;
    virtual Result<std::int64_t> Read(std::int64_t nbytes, void *out) = 0;
    virtual Result<std::shared_ptr<Buffer>> Read(std::int64_t nbytes) = 0;
};
class InputStream : virtual public FileInterface, virtual public Readable {
public:
    virtual bool supports_zero_copy() const { return false; }
};
class OutputStream : virtual public FileInterface {};
class RandomAccessFile : public InputStream, public Seekable {
public:
    virtual Result<std::int64_t> GetSize() = 0;
};
}  // namespace arrow::io
