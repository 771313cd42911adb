// A stand-in for the parts of the AWS SDK for C++ that ml-io's S3 client uses (and some that it might
// use), so that the real S3 sources run without the SDK and a network. Requests go to a service of
// the harness.
#pragma once
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace Aws {

using String = std::string;
template<typename T>
using Vector = std::vector<T>;
template<typename K, typename V>
using Map = std::map<K, V>;
using IOStream = std::iostream;
using StringStream = std::stringstream;
using OStringStream = std::ostringstream;
using IOStreamFactory = std::function<IOStream *()>;
template<typename T>
using UniquePtr = std::unique_ptr<T>;

template<typename T, typename... A>
std::shared_ptr<T> MakeShared(const char *, A &&... a)
{
    return std::make_shared<T>(std::forward<A>(a)...);
}
template<typename T, typename... A>
std::unique_ptr<T> MakeUnique(const char *, A &&... a)
{
    return std::make_unique<T>(std::forward<A>(a)...);
}
template<typename T, typename... A>
T *New(const char *, A &&... a)
{
    return new T(std::forward<A>(a)...);
}
template<typename T>
void Delete(T *p)
{
    delete p;
}

struct SDKOptions {
    int reserved{};
};
void InitAPI(const SDKOptions &);
void ShutdownAPI(const SDKOptions &);

namespace Http {
enum class Scheme { HTTP, HTTPS };
enum class HttpResponseCode { REQUEST_NOT_MADE = -1, OK = 200, PARTIAL_CONTENT = 206, FORBIDDEN = 403, NOT_FOUND = 404, REQUESTED_RANGE_NOT_SATISFIABLE = 416, INTERNAL_SERVER_ERROR = 500, SERVICE_UNAVAILABLE = 503 };
}  // namespace Http

namespace Region {
constexpr const char *US_EAST_1 = "us-east-1";
}

namespace Client {
struct ClientConfiguration {
    ClientConfiguration() = default;
    explicit ClientConfiguration(const char *profile) : region{"region-of-" + String{profile}}, profileName{profile} {}
    Http::Scheme scheme = Http::Scheme::HTTPS;
    String region = "us-east-1";
    String profileName{}, endpointOverride{}, userAgent{};
    bool verifySSL = true;
    unsigned maxConnections = 25;
    long connectTimeoutMs = 1000, requestTimeoutMs = 3000;
};

template<typename E>
class AWSError {
public:
    AWSError() = default;
    AWSError(E e, String name, String msg, bool retry = false) : e_{e}, name_{std::move(name)}, msg_{std::move(msg)}, retry_{retry} {}
    const E &GetErrorType() const { return e_; }
    const String &GetExceptionName() const { return name_; }
    const String &GetMessage() const { return msg_; }
    bool ShouldRetry() const { return retry_; }
    Http::HttpResponseCode GetResponseCode() const { return Http::HttpResponseCode::INTERNAL_SERVER_ERROR; }

private:
    E e_{};
    String name_{}, msg_{};
    bool retry_{};
};
}  // namespace Client

namespace Utils {
template<typename R, typename E>
class Outcome {
public:
    Outcome() = default;
    Outcome(R r) : r_{std::move(r)}, ok_{true} {}
    Outcome(E e) : e_{std::move(e)} {}
    Outcome(Outcome &&) = default;
    Outcome &operator=(Outcome &&) = default;
    bool IsSuccess() const { return ok_; }
    const R &GetResult() const { return r_; }
    R &GetResult() { return r_; }
    R &&GetResultWithOwnership() { return std::move(r_); }
    const E &GetError() const { return e_; }

private:
    R r_{};
    E e_{};
    bool ok_{};
};
}  // namespace Utils

namespace Auth {
class AWSCredentials {
public:
    AWSCredentials() = default;
    AWSCredentials(String id, String key, String token = {}) : id_{std::move(id)}, key_{std::move(key)}, token_{std::move(token)} {}
    const String &GetAWSAccessKeyId() const { return id_; }
    const String &GetAWSSecretKey() const { return key_; }
    const String &GetSessionToken() const { return token_; }
    bool IsEmpty() const { return id_.empty() && key_.empty(); }

private:
    String id_{}, key_{}, token_{};
};

class AWSCredentialsProvider {
public:
    virtual ~AWSCredentialsProvider() = default;
    virtual AWSCredentials GetAWSCredentials() = 0;
};
class AWSCredentialsProviderChain : public AWSCredentialsProvider {
public:
    AWSCredentials GetAWSCredentials() override;
};
class DefaultAWSCredentialsProviderChain : public AWSCredentialsProviderChain {
public:
    DefaultAWSCredentialsProviderChain();
};
class SimpleAWSCredentialsProvider : public AWSCredentialsProvider {
public:
    explicit SimpleAWSCredentialsProvider(AWSCredentials c) : c_{std::move(c)} {}
    AWSCredentials GetAWSCredentials() override { return c_; }

private:
    AWSCredentials c_;
};
class ProfileConfigFileAWSCredentialsProvider : public AWSCredentialsProvider {
public:
    explicit ProfileConfigFileAWSCredentialsProvider(const char *p) : p_{p} {}
    AWSCredentials GetAWSCredentials() override { return {"id-of-" + p_, "key-of-" + p_, ""}; }

private:
    String p_;
};
}  // namespace Auth

namespace S3 {

enum class S3Errors {
    INTERNAL_FAILURE = 1, ACCESS_DENIED, SERVICE_UNAVAILABLE, THROTTLING, SLOW_DOWN, RESOURCE_NOT_FOUND, REQUEST_TIMEOUT, NETWORK_CONNECTION,
    INVALID_ACCESS_KEY_ID, UNKNOWN, NO_SUCH_BUCKET, NO_SUCH_KEY, NO_SUCH_UPLOAD, INVALID_OBJECT_STATE, INVALID_PARAMETER_VALUE, VALIDATION,
};
using S3Error = Client::AWSError<S3Errors>;

namespace Model {

#define FAKE_FIELD(Class, Type, Name)                                \
public:                                                              \
    void Set##Name(Type v) { Name##_ = std::move(v), has_##Name##_ = true; } \
    Class &With##Name(Type v)                                        \
    {                                                                \
        Set##Name(std::move(v));                                     \
        return *this;                                                \
    }                                                                \
    const Type &Get##Name() const { return Name##_; }                \
    bool Name##HasBeenSet() const { return has_##Name##_; }          \
                                                                     \
private:                                                             \
    Type Name##_{};                                                  \
    bool has_##Name##_{};

class ListObjectsV2Request {
    FAKE_FIELD(ListObjectsV2Request, String, Bucket)
    FAKE_FIELD(ListObjectsV2Request, String, Prefix)
    FAKE_FIELD(ListObjectsV2Request, String, Delimiter)
    FAKE_FIELD(ListObjectsV2Request, String, StartAfter)
    FAKE_FIELD(ListObjectsV2Request, String, ContinuationToken)
    FAKE_FIELD(ListObjectsV2Request, int, MaxKeys)
};
class Object {
    FAKE_FIELD(Object, String, Key)
    FAKE_FIELD(Object, long long, Size)
    FAKE_FIELD(Object, String, ETag)
};
class ListObjectsV2Result {
    FAKE_FIELD(ListObjectsV2Result, Vector<Object>, Contents)
    FAKE_FIELD(ListObjectsV2Result, bool, IsTruncated)
    FAKE_FIELD(ListObjectsV2Result, String, NextContinuationToken)
    FAKE_FIELD(ListObjectsV2Result, String, Prefix)
    FAKE_FIELD(ListObjectsV2Result, String, Name)
    FAKE_FIELD(ListObjectsV2Result, int, KeyCount)
    FAKE_FIELD(ListObjectsV2Result, int, MaxKeys)
};
class HeadObjectRequest {
    FAKE_FIELD(HeadObjectRequest, String, Bucket)
    FAKE_FIELD(HeadObjectRequest, String, Key)
    FAKE_FIELD(HeadObjectRequest, String, VersionId)
    FAKE_FIELD(HeadObjectRequest, String, IfMatch)
};
class HeadObjectResult {
    FAKE_FIELD(HeadObjectResult, long long, ContentLength)
    FAKE_FIELD(HeadObjectResult, String, ETag)
    FAKE_FIELD(HeadObjectResult, String, VersionId)
};
class GetObjectRequest {
    FAKE_FIELD(GetObjectRequest, String, Bucket)
    FAKE_FIELD(GetObjectRequest, String, Key)
    FAKE_FIELD(GetObjectRequest, String, Range)
    FAKE_FIELD(GetObjectRequest, String, VersionId)
    FAKE_FIELD(GetObjectRequest, String, IfMatch)
public:
    void SetResponseStreamFactory(const IOStreamFactory &f) { factory_ = f; }
    const IOStreamFactory &GetResponseStreamFactory() const { return factory_; }

private:
    IOStreamFactory factory_{};
};
class GetObjectResult {
    FAKE_FIELD(GetObjectResult, long long, ContentLength)
    FAKE_FIELD(GetObjectResult, String, ContentRange)
    FAKE_FIELD(GetObjectResult, String, ETag)
    FAKE_FIELD(GetObjectResult, String, VersionId)
public:
    IOStream &GetBody() const { return *body_; }
    void ReplaceBody(IOStream *s) { body_.reset(s); }

private:
    std::unique_ptr<IOStream> body_ = std::make_unique<StringStream>();
};
#undef FAKE_FIELD

using ListObjectsV2Outcome = Utils::Outcome<ListObjectsV2Result, S3Error>;
using HeadObjectOutcome = Utils::Outcome<HeadObjectResult, S3Error>;
using GetObjectOutcome = Utils::Outcome<GetObjectResult, S3Error>;

}  // namespace Model

class S3Client {
public:
    S3Client();
    explicit S3Client(const Client::ClientConfiguration &config);
    S3Client(const Auth::AWSCredentials &cred, const Client::ClientConfiguration &config = {});
    S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> &p, const Client::ClientConfiguration &config = {});
    S3Client(const S3Client &) = delete;
    S3Client &operator=(const S3Client &) = delete;
    virtual ~S3Client();
    virtual Model::ListObjectsV2Outcome ListObjectsV2(const Model::ListObjectsV2Request &r) const;
    virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest &r) const;
    virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest &r) const;

    Auth::AWSCredentials credentials{};
    Client::ClientConfiguration configuration{};
};

}  // namespace S3
}  // namespace Aws
