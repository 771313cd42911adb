// The S3 client, stream, store and listing against a service double (the sources are compiled with
// MLIO_BUILD_S3 and a stand-in for the SDK, see fakeaws/).
#include <fnmatch.h>

#include <algorithm>
#include <optional>
#include <system_error>

#include "datasets.h"
#include "fakeaws/fake_aws.h"

namespace V {
using namespace mlio;
const char *const property_id = "C32";
const char *const rule =
    "Each case fills a double of the S3 service with buckets of drawn objects (some with several versions, some gzip compressed) and lists them by drawn URIs, pattern, predicate and page sizes; or "
    "drives a stream through drawn reads, seeks and closes next to a model; or reads a dataset whose stores are objects with a data reader; or makes clients. Requests are failed at drawn moments "
    "and the double checks the requests themselves. Non-trivial: at least one object has been listed or read. Distinct by objects and operations.";
std::uint64_t num_cases(bool thorough) { return thorough ? 200000 : 14000; }

namespace {

using Aws::S3::S3Errors;

struct Version {
    std::string id;
    Bytes content;
};

struct Service {
    std::mutex m;
    std::map<std::string, std::map<std::string, std::vector<Version>>> buckets;
    std::size_t page = 1000;         // keys per page
    bool short_bodies = false;       // bodies may have fewer bytes than requested
    Rng rng;
    std::size_t requests{}, lists{}, gets{}, heads{}, served{};
    std::optional<std::size_t> fail_at{};
    bool fail_on = false;            // later requests fail as well
    S3Errors fail_with = S3Errors::UNKNOWN;
    std::size_t fired{};
    std::map<std::string, std::pair<std::string, std::string>> tokens{};  // token -> what it is for, last key
    std::string complaint{};

    bool fails()
    {
        std::size_t n = requests++;
        if (!fail_at || (fail_on ? n < *fail_at : n != *fail_at)) return false;
        fired++;
        return true;
    }
    Aws::S3::S3Error error(S3Errors e, const char *name) { return {e, name, "made by the harness"}; }
    Aws::S3::S3Error fault() { return error(fail_with, "Fault"); }
    const Version *find(const std::string &bucket, const std::string &key, const std::string &version, Aws::S3::S3Error &e)
    {
        auto b = buckets.find(bucket);
        if (b == buckets.end()) {
            e = error(S3Errors::NO_SUCH_BUCKET, "NoSuchBucket");
            return nullptr;
        }
        auto k = b->second.find(key);
        if (k == b->second.end()) {
            e = error(S3Errors::NO_SUCH_KEY, "NoSuchKey");
            return nullptr;
        }
        if (version.empty()) return &k->second.back();
        for (auto &v : k->second)
            if (v.id == version) return &v;
        e = error(S3Errors::UNKNOWN, "NoSuchVersion");
        return nullptr;
    }
};

Service *service{};
int initialized{};
std::size_t chains{};

struct Made {
    Aws::Auth::AWSCredentials cred;
    Aws::Client::ClientConfiguration config;
};
std::vector<Made> made;
void client_made(const Aws::S3::S3Client &c) { made.push_back({c.credentials, c.configuration}); }

}  // namespace
}  // namespace V

namespace Aws {
void InitAPI(const SDKOptions &) { V::initialized++; }
void ShutdownAPI(const SDKOptions &) { V::initialized--; }
namespace Auth {
AWSCredentials AWSCredentialsProviderChain::GetAWSCredentials() { return {"default-id", "default-key", "default-token"}; }
DefaultAWSCredentialsProviderChain::DefaultAWSCredentialsProviderChain() { V::chains++; }
}  // namespace Auth
namespace S3 {
S3Client::S3Client() : S3Client{Auth::DefaultAWSCredentialsProviderChain{}.GetAWSCredentials()} {}
S3Client::S3Client(const Client::ClientConfiguration &config) : S3Client{Auth::DefaultAWSCredentialsProviderChain{}.GetAWSCredentials(), config} {}
S3Client::S3Client(const Auth::AWSCredentials &cred, const Client::ClientConfiguration &config) : credentials{cred}, configuration{config} { V::client_made(*this); }
S3Client::S3Client(const std::shared_ptr<Auth::AWSCredentialsProvider> &p, const Client::ClientConfiguration &config) : S3Client{p->GetAWSCredentials(), config} {}
S3Client::~S3Client() = default;

Model::ListObjectsV2Outcome S3Client::ListObjectsV2(const Model::ListObjectsV2Request &r) const
{
    using namespace V;
    std::lock_guard<std::mutex> lock{service->m};
    service->lists++;
    if (service->fails()) return service->fault();
    auto b = service->buckets.find(r.GetBucket());
    if (b == service->buckets.end()) return service->error(S3Errors::NO_SUCH_BUCKET, "NoSuchBucket");
    std::string what = r.GetBucket() + "\n" + r.GetPrefix(), after = r.GetStartAfter();
    if (r.ContinuationTokenHasBeenSet()) {
        auto t = service->tokens.find(r.GetContinuationToken());
        if (t == service->tokens.end() || t->second.first != what) return service->error(S3Errors::INVALID_PARAMETER_VALUE, "InvalidArgument");
        after = t->second.second;
    }
    std::size_t max = std::min<std::size_t>(service->page, r.MaxKeysHasBeenSet() ? static_cast<std::size_t>(std::max(r.GetMaxKeys(), 0)) : 1000);
    // A page may have fewer keys than allowed.
    if (max > 1 && service->page < 1000) max = service->rng.in(0, max);
    Model::ListObjectsV2Result res;
    Aws::Vector<Model::Object> keys;
    bool truncated = false;
    std::string last = after;
    for (auto it = after.empty() ? b->second.begin() : b->second.upper_bound(after); it != b->second.end(); ++it) {
        if (it->first.compare(0, r.GetPrefix().size(), r.GetPrefix()) != 0) continue;
        if (keys.size() == max) {
            truncated = true;
            break;
        }
        Model::Object o;
        o.SetKey(it->first);
        o.SetSize(static_cast<long long>(it->second.back().content.size()));
        keys.push_back(o);
        last = it->first;
    }
    res.SetKeyCount(static_cast<int>(keys.size()));
    res.SetContents(keys);
    res.SetIsTruncated(truncated);
    if (truncated) {
        std::string token = fmt::format("{:x}=={}", service->rng.next(), service->tokens.size());
        service->tokens[token] = {what, last};
        res.SetNextContinuationToken(token);
    }
    return res;
}

Model::HeadObjectOutcome S3Client::HeadObject(const Model::HeadObjectRequest &r) const
{
    using namespace V;
    std::lock_guard<std::mutex> lock{service->m};
    service->heads++;
    if (service->fails()) return service->fault();
    S3Error e;
    const Version *v = service->find(r.GetBucket(), r.GetKey(), r.GetVersionId(), e);
    if (v == nullptr) return e.GetErrorType() == S3Errors::NO_SUCH_KEY ? service->error(S3Errors::RESOURCE_NOT_FOUND, "NotFound") : e;
    Model::HeadObjectResult res;
    res.SetContentLength(static_cast<long long>(v->content.size()));
    res.SetVersionId(v->id);
    return res;
}

Model::GetObjectOutcome S3Client::GetObject(const Model::GetObjectRequest &r) const
{
    using namespace V;
    std::lock_guard<std::mutex> lock{service->m};
    service->gets++;
    if (service->fails()) return service->fault();
    S3Error e;
    const Version *v = service->find(r.GetBucket(), r.GetKey(), r.GetVersionId(), e);
    if (v == nullptr) return e;
    Bytes part = v->content;
    if (r.RangeHasBeenSet()) {
        unsigned long long a = 0, b = ~0ULL;
        int used = 0, n = std::sscanf(r.GetRange().c_str(), "bytes=%llu-%n%llu%n", &a, &used, &b, &used);
        if (n < 1 || static_cast<std::size_t>(used) != r.GetRange().size())
            service->complaint = "the range " + quote(r.GetRange()) + " is invalid";
        else if (b >= a) {
            if (a >= v->content.size()) return service->error(S3Errors::UNKNOWN, "InvalidRange");
            part = v->content.substr(a, b == ~0ULL ? Bytes::npos : b - a + 1);
        }
    }
    if (service->short_bodies && part.size() > 1) part.resize(service->rng.in(1, part.size()));
    service->served += part.size();
    Model::GetObjectResult res;
    if (r.GetResponseStreamFactory()) res.ReplaceBody(r.GetResponseStreamFactory()());
    res.GetBody().write(part.data(), static_cast<std::streamsize>(part.size()));
    res.GetBody().seekg(0);
    res.SetContentLength(static_cast<long long>(part.size()));
    return res;
}
}  // namespace S3
}  // namespace Aws

namespace V {
namespace {

// The kinds of failures that users tell apart by the error code.
void check_code(const std::system_error &e, S3Errors cause)
{
    std::optional<std::errc> want;
    switch (cause) {
    case S3Errors::ACCESS_DENIED: want = std::errc::permission_denied; break;
    case S3Errors::NO_SUCH_KEY:
    case S3Errors::NO_SUCH_BUCKET:
    case S3Errors::RESOURCE_NOT_FOUND: want = std::errc::no_such_file_or_directory; break;
    case S3Errors::REQUEST_TIMEOUT: want = std::errc::timed_out; break;
    default: break;
    }
    if (want)
        CHECK(e.code() == *want, "error-code", "the error code of a request that failed with S3 error {} is {}", static_cast<int>(cause), e.code().message());
    else
        CHECK(e.code() && e.code() != std::errc::no_such_file_or_directory && e.code() != std::errc::permission_denied, "error-code", "the error code of a request that failed with S3 error {} is {}", static_cast<int>(cause), e.code().message());
}

S3Errors draw_error(Rng &r)
{
    return r.pick({S3Errors::ACCESS_DENIED, S3Errors::SERVICE_UNAVAILABLE, S3Errors::THROTTLING, S3Errors::NETWORK_CONNECTION, S3Errors::REQUEST_TIMEOUT, S3Errors::INTERNAL_FAILURE, S3Errors::NO_SUCH_KEY, S3Errors::UNKNOWN});
}

Intrusive_ptr<S3_client> draw_client(Rng &r)
{
    if (r.chance(0.5)) return make_s3_client();
    if (r.chance(0.5)) return make_intrusive<S3_client>(std::make_unique<Aws::S3::S3Client>());
    S3_client_options o;
    o.access_key_id = "id";
    o.secret_key = "key";
    return make_s3_client(o);
}

Bytes draw_bytes(Rng &r)
{
    std::size_t n = r.chance(0.15) ? 0 : r.chance(0.05) ? r.in(1000, 20000) : r.below(200);
    Bytes b;
    while (b.size() < n) b += static_cast<char>(r.next());
    return b;
}

// Natural order of names without leading zeros and spaces.
int natural(const std::string &a, const std::string &b)
{
    std::size_t i = 0, j = 0;
    auto digit = [](char c) { return c >= '0' && c <= '9'; };
    while (i < a.size() && j < b.size()) {
        if (digit(a[i]) && digit(b[j])) {
            std::size_t x = i, y = j;
            while (x < a.size() && digit(a[x])) x++;
            while (y < b.size() && digit(b[y])) y++;
            if (x - i != y - j) return x - i < y - j ? -1 : 1;
            int c = a.compare(i, x - i, b, j, y - j);
            if (c != 0) return c;
            i = x;
            j = y;
        }
        else {
            if (a[i] != b[j]) return static_cast<unsigned char>(a[i]) < static_cast<unsigned char>(b[j]) ? -1 : 1;
            i++;
            j++;
        }
    }
    return i < a.size() ? 1 : j < b.size() ? -1 : 0;
}

std::string draw_key(Rng &r)
{
    static const char *const words[] = {"a", "b", "part-", "data/", "x/y/", "train", "z", "A", "~", "%20+"};
    static const char *const ends[] = {"", ".csv", ".gz", ".csv.gz", ".json", "/", ".csvx", ".GZ"};
    std::string s;
    for (std::size_t i = 0, n = r.in(1, 3); i < n; i++) {
        s += words[r.below(10)];
        if (r.chance(0.6)) s += std::to_string(r.chance(0.5) ? r.in(1, 12) : r.in(1, 2000));
        if (r.chance(0.2)) s += '/';
    }
    return s + ends[r.below(8)];
}

Bytes read_whole(Rng &r, Input_stream &s)
{
    Bytes b;
    for (;;) {
        std::vector<std::byte> buf(r.in(1, 6000));
        std::size_t n = s.read(Mutable_memory_span{buf.data(), buf.size()});
        CHECK(n <= buf.size(), "read-size", "a read of {} bytes returns {}", buf.size(), n);
        if (n == 0) return b;
        b.append(reinterpret_cast<const char *>(buf.data()), n);
    }
}

void listing(Case &c, Rng &r, Service &s)
{
    auto client = draw_client(r);
    static const char *const bucket_names[] = {"bucket", "bucket2", "b.c-d"};
    std::size_t nb = r.in(1, 3), total = 0;
    for (std::size_t i = 0; i < nb; i++) {
        auto &b = s.buckets[bucket_names[i]];
        bool utf8 = r.chance(0.2);
        for (std::size_t k = 0, n = r.chance(0.1) ? 0 : r.chance(0.05) ? r.in(1000, 2300) : r.in(1, 30); k < n; k++) {
            std::string key = n > 1000 ? "many/" + std::to_string(r.below(100000)) : (utf8 ? "\xc3\xa9/" : "") + draw_key(r);
            Bytes x = n > 1000 ? Bytes(k % 7, 'z') : draw_bytes(r);
            b[key] = {{"v1", x}};
        }
        total += b.size();
    }
    s.page = r.chance(0.2) ? 1000 : r.in(1, 12);
    if (total > 1000) s.page = r.pick<std::size_t>({1000, 1000, 700, 100});
    struct Uri {
        std::string bucket, prefix, text;
    };
    std::vector<Uri> uris;
    for (std::size_t i = 0, n = r.in(0, 3); i <= n; i++) {
        Uri u;
        u.bucket = bucket_names[r.below(nb)];
        auto &b = s.buckets[u.bucket];
        if (r.chance(0.5) && !b.empty()) {
            auto it = b.begin();
            std::advance(it, static_cast<std::ptrdiff_t>(r.below(b.size())));
            u.prefix = it->first.substr(0, r.in(0, it->first.size()));
        }
        else if (r.chance(0.2))
            u.prefix = "nowhere";
        u.text = "s3://" + u.bucket + (u.prefix.empty() && r.chance(0.5) ? "" : "/" + u.prefix);
        bool overlap = false;
        for (auto &o : uris)
            if (o.bucket == u.bucket && (o.prefix.compare(0, u.prefix.size(), u.prefix) == 0 || u.prefix.compare(0, o.prefix.size(), o.prefix) == 0)) overlap = true;
        if (!overlap) uris.push_back(u);
    }
    static const char *const patterns[] = {"", "", "*.csv", "s3://bucket/*", "*[13579]*", "*part-?*", "*a*", "nothing", "*.gz"};
    std::string pattern = patterns[r.below(9)];
    std::uint64_t pred_seed = r.next();
    bool use_pred = r.chance(0.3), throwing = use_pred && r.chance(0.1);
    auto accepts = [&](const std::string &u) { return hash_str(u, pred_seed) % 3 != 0; };
    std::vector<std::string> want, predicate_got, predicate_want;
    std::map<std::string, Bytes> contents;
    for (auto &u : uris)
        for (auto &[key, versions] : s.buckets[u.bucket]) {
            if (key.compare(0, u.prefix.size(), u.prefix) != 0) continue;
            std::string uri = "s3://" + u.bucket + "/" + key;
            if (!pattern.empty() && ::fnmatch(pattern.c_str(), uri.c_str(), 0) != 0) continue;
            predicate_want.push_back(uri);
            if (use_pred && !accepts(uri)) continue;
            want.push_back(uri);
            contents[uri] = versions.back().content;
        }
    std::stable_sort(want.begin(), want.end(), [](auto &a, auto &b) { return natural(a, b) < 0; });
    Compression compression = r.pick({Compression::infer, Compression::none, Compression::none, Compression::gzip});
    auto gz = [&](const std::string &uri) {
        return compression == Compression::gzip || (compression == Compression::infer && uri.size() > 3 && uri.compare(uri.size() - 3, 3, ".gz") == 0);
    };
    for (auto &[bucket, objects] : s.buckets)
        for (auto &[key, versions] : objects)
            if (gz("s3://" + bucket + "/" + key)) versions.back().content = deflate_bytes(versions.back().content);
    std::vector<std::string> texts;
    for (auto &u : uris) texts.push_back(u.text);
    bool fault = r.chance(0.2);
    if (fault) {
        s.fail_at = r.below(6);
        s.fail_on = r.chance(0.3);
        s.fail_with = draw_error(r);
    }
    c.describe(fmt::format("list {} with pattern {} predicate {} pages of {} fault {} objects {}", fmt::join(texts, " "), pattern, use_pred, s.page, fault ? static_cast<int>(*s.fail_at) : -1, total));
    std::function<bool(const std::string &)> pred = [&](const std::string &u) {
        predicate_got.push_back(u);
        if (throwing) throw std::domain_error{"predicate"};
        return accepts(u);
    };
    S3_object_list_options o;
    o.pattern = pattern;
    o.compression = compression;
    if (use_pred) o.predicate = &pred;
    std::vector<Intrusive_ptr<Data_store>> got;
    std::string error;
    bool light = !use_pred && texts.size() == 1 && compression == Compression::infer && r.chance(0.5);
    try {
        if (light)
            got = pattern.empty() && r.chance(0.5) ? list_s3_objects(*client, texts[0]) : list_s3_objects(*client, texts[0], pattern);
        else
            got = list_s3_objects(*client, texts, o);
    }
    catch (const std::domain_error &) {
        error = "predicate";
    }
    catch (const std::system_error &e) {
        error = e.what();
        if (s.fired != 0) check_code(e, s.fail_with);
    }
    if (s.fired != 0) {
        CHECK(!error.empty(), "error-lost", "request {} of the listing failed, but {} objects are returned", *s.fail_at, got.size());
        c.count("failed listings");
        s.fail_at.reset();
        return;
    }
    if (throwing && !predicate_want.empty()) {
        CHECK(error == "predicate", "predicate-error", "the exception of the predicate does not arrive");
        return;
    }
    CHECK(error.empty(), "list-error", "the listing fails: {}", error);
    s.fail_at.reset();
    if (use_pred) {
        std::sort(predicate_want.begin(), predicate_want.end());
        std::sort(predicate_got.begin(), predicate_got.end());
        CHECK(predicate_want == predicate_got, "predicate", "the predicate got {} objects instead of {}", predicate_got.size(), predicate_want.size());
    }
    std::vector<std::string> ids;
    for (auto &x : got) ids.push_back(x->id());
    CHECK(ids.size() == want.size(), "list", "{} objects are listed instead of {}: {}", ids.size(), want.size(), first_difference(want, ids));
    for (std::size_t i = 0; i < ids.size(); i++) CHECK(ids[i] == want[i], "list", "object {} of the list is {} instead of {}", i, quote(ids[i]), quote(want[i]));
    client = nullptr;  // the stores keep it alive
    for (std::size_t k = 0, n = std::min<std::size_t>(got.size(), 6); k < n; k++) {
        std::size_t i = r.below(got.size());
        auto st = got[i]->open_read();
        Bytes b = read_whole(r, *st);
        CHECK(b == contents[ids[i]], "content", "{} has {} bytes {} instead of {} bytes {}", ids[i], b.size(), quote(b, 60), contents[ids[i]].size(), quote(contents[ids[i]], 60));
        c.count("objects read");
    }
    c.nontrivial = !ids.empty();
    c.count("objects listed", ids.size());
    c.count("list requests", s.lists);
    c.sig = fmt::format("list|{}|{}|{}|{}", fmt::join(texts, " "), pattern, hash_str(fmt::format("{}", fmt::join(ids, "\n"))), s.page);
}

void stream(Case &c, Rng &r, Service &s)
{
    auto client = draw_client(r);
    std::string key = draw_key(r), uri = "s3://bucket/" + key, version;
    auto &versions = s.buckets["bucket"][key];
    for (std::size_t i = 0, n = r.in(1, 3); i < n; i++) versions.push_back({"v" + std::to_string(i), draw_bytes(r)});
    s.buckets["bucket"][key + "x"] = {{"v0", draw_bytes(r)}};
    s.buckets["other"][key] = {{"v0", draw_bytes(r)}};
    Bytes b = versions.back().content;
    if (r.chance(0.4)) {
        auto &v = versions[r.below(versions.size())];
        version = v.id;
        b = v.content;
    }
    s.short_bodies = r.chance(0.2);
    unsigned how = static_cast<unsigned>(r.below(3));
    c.describe(fmt::format("stream {} version {} of {} bytes", quote(uri), version, b.size()));
    // What must fail
    if (r.chance(0.2)) {
        std::string bad = r.pick<std::string>({"", "s3:/", "s3://", "s3://bucket", "s3://bucket/", "s3:///key", "file:///x", "S3://bucket/x", "bucket/key"});
        bool thrown = false;
        try {
            if (how == 0)
                make_s3_input_stream(client, bad);
            else
                make_intrusive<S3_object>(client, bad);
        }
        catch (const std::invalid_argument &) {
            thrown = true;
        }
        CHECK(thrown, "uri", "{} is accepted as the URI of an object", quote(bad));
    }
    if (r.chance(0.2)) {
        bool thrown = false, named = false;
        try {
            named = true;
            std::string u = r.pick<std::string>({"s3://bucket/missing", "s3://missing/" + key, uri + "/"});
            if (u == uri + "/" && r.chance(0.5) && !(named = false))
                make_intrusive<S3_object>(client, uri, "v77", Compression::none)->open_read();
            else
                make_intrusive<S3_object>(client, u, "", Compression::none)->open_read();
        }
        catch (const std::system_error &e) {
            thrown = true;
            if (named) check_code(e, S3Errors::NO_SUCH_KEY);
        }
        CHECK(thrown, "missing", "opening a missing object succeeds");
    }
    std::size_t failing = s.requests;
    bool fault = r.chance(0.3);
    if (fault) {
        s.fail_at = failing + r.below(8);
        s.fail_on = r.chance(0.3);
        s.fail_with = draw_error(r);
    }
    Intrusive_ptr<Input_stream> st;
    try {
        if (how == 0)
            st = make_s3_input_stream(client, uri, version);
        else {
            auto o = make_intrusive<S3_object>(client, uri, version, Compression::none);
            CHECK(o->id().compare(0, uri.size(), uri) == 0 && (version.empty() || o->id().find(version, uri.size()) != std::string::npos), "id", "the id of {} version {} is {}", uri, version, o->id());
            st = o->open_read();
        }
    }
    catch (const std::system_error &e) {
        CHECK(s.fired == 1, "open", "the object cannot be opened");
        check_code(e, s.fail_with);
        c.count("failed openings");
        return;
    }
    CHECK(s.fired == 0, "error-lost", "the failure of a request while opening the object is lost");
    client = nullptr;
    CHECK(st->seekable(), "seekable", "an S3 stream is not seekable");
    std::size_t pos = 0, reads = 0;
    std::string ops;
    bool closed = false;
    std::vector<std::pair<Memory_slice, Bytes>> kept;
    auto check = [&](std::size_t want, std::size_t got, const std::byte *p) {
        std::size_t left = b.size() - pos;
        CHECK(got <= want && got <= left, "read-size", "a read of {} bytes at {} of {} returns {}: {}", want, pos, b.size(), got, ops);
        if (want != 0 && left != 0) CHECK(got != 0, "early-end", "a read of {} bytes at {} of {} returns nothing: {}", want, pos, b.size(), ops);
        if (got != 0) CHECK(std::memcmp(p, b.data() + pos, got) == 0, "bytes", "a read of {} bytes at {} returns other bytes: {}", got, pos, ops);
        pos += got;
        reads += got != 0;
    };
    for (std::size_t i = 0, n = r.in(1, 25); i < n; i++) {
        unsigned op = static_cast<unsigned>(r.below(10));
        std::size_t want = r.chance(0.1) ? 0 : r.chance(0.2) ? b.size() + r.below(100) : r.in(1, 60), fired = s.fired;
        bool thrown = false;
        std::vector<std::byte> buf(want + 8, std::byte{0x5a});
        Memory_slice slice;
        std::size_t got = 0, to = r.chance(0.2) ? b.size() : r.below(b.size() + 1);
        try {
            if (op < 4) {
                ops += fmt::format("read {}; ", want);
                got = st->read(Mutable_memory_span{buf.data(), want});
            }
            else if (op < 6) {
                ops += fmt::format("slice {}; ", want);
                slice = st->read(want);
            }
            else if (op < 8) {
                ops += fmt::format("seek {}; ", to);
                st->seek(to);
            }
            else if (op == 9 && r.chance(0.2)) {
                st->close();
                closed = true;
            }
        }
        catch (const std::system_error &) {
            thrown = true;
        }
        catch (const Stream_error &) {
            thrown = true;
        }
        if (closed) {
            CHECK(st->closed(), "closed", "closed() is false after close()");
            if (op < 8) {
                CHECK(thrown, "closed", "an operation on a closed stream succeeds: {}", ops);
                c.count("operations on closed streams");
            }
            continue;
        }
        if (s.fired != fired) {
            CHECK(thrown, "error-lost", "the failure of a request is lost: {}", ops);
            c.count("failed requests");
            if (s.fail_on && r.chance(0.3)) s.fail_at.reset();
        }
        else {
            CHECK(!thrown, "error", "an operation fails: {}", ops);
            if (op < 4) {
                check(want, got, buf.data());
                for (std::size_t k = want; k < want + 8; k++) CHECK(buf[k] == std::byte{0x5a}, "read-overrun", "bytes behind the destination have changed");
            }
            else if (op < 6) {
                std::size_t at = pos;
                check(want, slice.size(), slice.data());
                kept.emplace_back(slice, b.substr(at, slice.size()));
            }
            else if (op < 8)
                pos = to;
        }
        CHECK(st->position() == pos && st->size() == b.size(), "position", "position() is {} of {} instead of {} of {}: {}", st->position(), st->size(), pos, b.size(), ops);
    }
    s.fail_at.reset();
    if (!closed) {
        Bytes rest = read_whole(r, *st);
        CHECK(rest == b.substr(pos), "rest", "the rest of the object has {} bytes instead of {}: {}", rest.size(), b.size() - pos, ops);
        st->seek(0);
        Bytes all = read_whole(r, *st);
        CHECK(all == b, "rest", "the second pass returns {} bytes instead of {}: {}", all.size(), b.size(), ops);
    }
    // An object that has shrunk in the meantime must not look like a shorter one.
    if (!closed && version.empty() && b.size() > 1 && r.chance(0.3)) {
        st->seek(0);
        versions.back().content.resize(r.below(b.size()));
        bool thrown = false;
        try {
            read_whole(r, *st);
        }
        catch (const std::system_error &) {
            thrown = true;
        }
        CHECK(thrown, "shrunk", "an object that has shrunk from {} to {} bytes is read without an error", b.size(), versions.back().content.size());
        c.count("shrunk objects");
    }
    st = nullptr;
    for (auto &[x, w] : kept) CHECK(slice_bytes(x) == w, "slice-changed", "a slice has changed");
    c.nontrivial = reads != 0;
    c.count("stream operations", ops.size());
    c.sig = fmt::format("stream|{}|{}", hash_str(b), ops);
}

void reader(Case &c, Rng &r, Service &s)
{
    Tune tune;
    std::string knobs = Tune::randomize(r, true);
    auto client = draw_client(r);
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.in(0, 30);
    g.num_stores = r.in(1, 5);
    Dataset d = make_dataset(r, g);
    Data_reader_params p;
    p.batch_size = r.in(1, 6);
    p.num_prefetched_examples = r.in(1, 4);
    s.short_bodies = r.chance(0.3);
    bool zip = r.chance(0.3);
    for (std::size_t i = 0; i < d.contents.size(); i++) {
        std::string key = fmt::format("set/{}.{}", i, zip ? "gz" : "bin");
        s.buckets["data"][key] = {{"v1", zip ? deflate_bytes(d.contents[i]) : d.contents[i]}};
    }
    s.buckets["data"];
    p.dataset = list_s3_objects(*client, "s3://data/set");
    auto want = d.dumps();
    bool fault = r.chance(0.4);
    if (fault) {
        s.fail_at = s.requests + r.below(2 * d.contents.size() + 4);
        s.fail_on = r.chance(0.3);
        s.fail_with = draw_error(r);
    }
    c.describe(fmt::format("read {} rows of {} from {} objects, fault at {} {}", want.size(), kind_name(d.kind), d.contents.size(), fault ? static_cast<int>(*s.fail_at) : -1, knobs));
    Intrusive_ptr<Data_reader> rd;
    Result res;
    try {
        rd = d.open(p);
        res = read_all(*rd);
    }
    catch (const std::exception &e) {
        res.error = exc_type(e);
    }
    std::size_t fired;
    {
        std::lock_guard<std::mutex> lock{s.m};
        fired = s.fired;
    }
    if (fired != 0) {
        CHECK(!res.error.empty(), "error-lost", "a request failed, but the epoch ends normally after {} of {} rows", res.rows.size(), want.size());
        CHECK(res.rows.size() <= want.size() && std::equal(res.rows.begin(), res.rows.end(), want.begin()), "rows-before-error", "{}", first_difference(want, res.rows));
        c.count("failed epochs");
        {
            std::lock_guard<std::mutex> lock{s.m};
            s.fail_at.reset();
        }
        if (rd == nullptr) return;
        rd->reset();
        res = read_all(*rd);
    }
    CHECK(res.error.empty(), "reader-error", "reading fails: {} {}", res.error, res.error_text);
    CHECK(res.rows == want, "rows", "{}", first_difference(want, res.rows));
    c.nontrivial = !want.empty();
    c.count("rows read", want.size());
    c.sig = fmt::format("reader|{}|{}|{}", kind_name(d.kind), want.size(), hash_str(fmt::format("{}", fmt::join(want, ""))));
}

void clients(Case &c, Rng &r)
{
    std::size_t n = r.in(1, 4);
    for (std::size_t i = 0; i < n; i++) {
        std::string id, key, token, profile, region;
        if (r.chance(0.6)) {
            id = "id" + std::to_string(r.below(100));
            key = "key" + std::to_string(r.below(100));
            if (r.chance(0.5)) token = "token" + std::to_string(r.below(100));
        }
        if (r.chance(0.4)) profile = "profile" + std::to_string(r.below(100));
        if (r.chance(0.5)) region = "eu-west-" + std::to_string(r.below(100));
        bool https = r.chance(0.5);
        c.describe(fmt::format("client {} {} {} {} {} {}", id, key, token, profile, region, https));
        made.clear();
        S3_client_options o;
        // The views are into longer texts.
        std::string all = id + key + token + profile + region;
        std::string_view v = all;
        auto cut = [&](const std::string &x) {
            auto y = v.substr(0, x.size());
            v.remove_prefix(x.size());
            return y;
        };
        o.access_key_id = cut(id);
        o.secret_key = cut(key);
        o.session_token = cut(token);
        o.profile = cut(profile);
        o.region = cut(region);
        o.use_https = https;
        auto client = make_s3_client(o);
        CHECK(made.size() == 1, "client", "{} native clients are made", made.size());
        auto &m = made[0];
        if (id.empty()) {
            bool own = !profile.empty() && m.cred.GetAWSAccessKeyId() == "id-of-" + profile;
            CHECK(own || m.cred.GetAWSAccessKeyId() == "default-id", "credentials", "the client does not use the default credentials");
        }
        else
            CHECK(m.cred.GetAWSAccessKeyId() == id && m.cred.GetAWSSecretKey() == key && m.cred.GetSessionToken() == token, "credentials", "the client uses the credentials {} {} {}", m.cred.GetAWSAccessKeyId(), m.cred.GetAWSSecretKey(), m.cred.GetSessionToken());
        CHECK(m.config.region == (!region.empty() ? region : !profile.empty() ? "region-of-" + profile : "us-east-1"), "region", "the client uses the region {}", m.config.region);
        CHECK((m.config.scheme == Aws::Http::Scheme::HTTPS) == https, "scheme", "use_https {} is not honored", https);
        c.count("clients");
    }
    c.nontrivial = false;
    if (r.chance(0.3)) {
        Log_capture log;
        deallocate_aws_sdk();
        CHECK(initialized == 0, "shutdown", "the SDK is not shut down");
        if (r.chance(0.5)) deallocate_aws_sdk();
        CHECK(initialized == 0, "shutdown", "the SDK is shut down twice");
        initialize_aws_sdk();
        CHECK(initialized == 1, "init", "the SDK is not initialized");
        if (r.chance(0.5)) initialize_aws_sdk();
        CHECK(initialized == 1, "init", "the SDK is initialized twice");
        c.count("SDK restarts");
    }
    c.sig = c.description();
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    if (initialized == 0) {
        CHECK(supports_s3(), "support", "supports_s3() is false");
        initialize_aws_sdk();
    }
    auto s = std::make_unique<Service>();
    s->rng.reseed(r.next());
    service = s.get();
    made.clear();
    double x = static_cast<double>(r.below(1000)) / 1000;
    if (x < 0.35)
        listing(c, r, *s);
    else if (x < 0.7)
        stream(c, r, *s);
    else if (x < 0.93)
        reader(c, r, *s);
    else
        clients(c, r);
    CHECK(s->complaint.empty(), "request", "{}", s->complaint);
    c.count("requests", s->requests);
    c.count("bytes served", s->served);
    service = nullptr;
}
}  // namespace V
