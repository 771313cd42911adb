#include <algorithm>
#include <unordered_set>

#include "stores.h"
namespace V {
using namespace mlio;
const char *const property_id = "C30";
const char *const rule =
    "Each case draws groups of attributes, schemas, devices, encodings and data stores from small pools and compares equality, inequality and hashes of all pairs with the equality of their fields, "
    "looks up all names, and constructs dense, COO and CSR tensors and examples with fitting and almost fitting parts, comparing acceptance with an exact model. "
    "Non-trivial: always. Distinct by the drawn values.";
std::uint64_t num_cases(bool thorough) { return thorough ? 600000 : 60000; }

namespace {

const std::vector<Data_type> types{Data_type::size, Data_type::float16, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64, Data_type::string};

Size_vector draw_shape(Rng &r, std::size_t max_rank = 4)
{
    Size_vector s;
    std::size_t n = r.below(max_rank + 1);
    for (std::size_t i = 0; i < n; i++) s.push_back(r.chance(0.1) ? 0 : r.in(1, 4));
    return s;
}

Ssize_vector row_major(const Size_vector &s)
{
    Ssize_vector x(s.size());
    std::ptrdiff_t n = 1;
    for (std::size_t i = s.size(); i-- > 0;) {
        x[i] = n;
        n *= static_cast<std::ptrdiff_t>(s[i]);
    }
    return x;
}

struct Attr {
    std::string name;
    Data_type dt{};
    Size_vector shape;
    Ssize_vector strides;
    bool sparse{};
    bool operator==(const Attr &o) const { return std::tie(name, dt, shape, strides, sparse) == std::tie(o.name, o.dt, o.shape, o.strides, o.sparse); }
};

// The name as a temporary of its own, so that nothing may depend on addresses.
std::string fresh(const std::string &s) { return std::string(s.begin(), s.end()); }

std::pair<Attr, Attribute> draw_attr(Rng &r, const std::string &name)
{
    Attr a;
    a.name = name;
    a.dt = r.chance(0.6) ? Data_type::float32 : r.pick(types);
    a.shape = r.chance(0.5) ? Size_vector{2, 3} : draw_shape(r);
    a.sparse = r.chance(0.2);
    a.strides = row_major(a.shape);
    Ssize_vector given;
    if (r.chance(0.3)) {
        if (r.chance(0.5))
            for (auto &x : a.strides) x += static_cast<std::ptrdiff_t>(r.below(2));
        given = a.strides;
    }
    // Equal values may have different capacities.
    Size_vector shape;
    shape.reserve(a.shape.size() + r.below(4));
    shape = a.shape;
    Ssize_vector spare;
    spare.reserve(given.size() + r.below(4));
    spare = given;
    return {a, Attribute{fresh(name), a.dt, std::move(shape), std::move(spare), a.sparse}};
}

template<typename T>
void check_pair(const T &x, const T &y, bool same, const std::string &what)
{
    CHECK((x == y) == same && (y == x) == same, "equality", "{}: == is {} instead of {}", what, x == y, same);
    CHECK((x != y) == !same && (y != x) == !same, "inequality", "{}: != is {} instead of {}", what, x != y, !same);
    CHECK(x == x && !(x != x), "reflexivity", "{}: a value differs from itself", what);
    if (same) CHECK(std::hash<T>{}(x) == std::hash<T>{}(y), "hash", "{}: equal values have different hashes", what);
}

void attributes(Case &c)
{
    Rng &r = c.rng;
    std::vector<std::pair<Attr, Attribute>> v;
    std::vector<std::string> names{"a", "b", "", "a b", std::string("a\0b", 3), "label_a"};
    for (std::size_t i = 0; i < 5; i++) v.push_back(draw_attr(r, r.pick(names)));
    if (r.chance(0.5)) v.push_back({v[0].first, Attribute{fresh(v[0].first.name), v[0].first.dt, v[0].first.shape, r.chance(0.5) ? v[0].first.strides : v[0].second.strides(), v[0].first.sparse}});
    for (auto &x : v) {
        CHECK(x.second.name() == x.first.name && x.second.data_type() == x.first.dt && x.second.shape() == x.first.shape && x.second.sparse() == x.first.sparse, "attribute-fields", "an attribute shows other fields than given");
        CHECK(x.second.strides() == x.first.strides, "default-strides", "the strides of the shape ({}) are ({}) instead of ({})", fmt::format("{}", fmt::join(x.first.shape, ",")), fmt::format("{}", fmt::join(x.second.strides(), ",")), fmt::format("{}", fmt::join(x.first.strides, ",")));
        CHECK(x.second.repr().find("Attribute") != std::string::npos, "repr", "repr");
        for (auto &y : v) {
            check_pair(x.second, y.second, x.first == y.first, x.second.repr() + " and " + y.second.repr());
            c.count("compared attributes");
            c.count("equal attributes", x.first == y.first);
        }
        // A wrong number of strides
        Ssize_vector bad(x.first.shape.size() + 1, 1);
        bool thrown = false;
        try {
            Attribute z{"z", Data_type::int8, x.first.shape, bad};
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown, "strides", "an attribute with {} dimensions and {} strides has been accepted", x.first.shape.size(), bad.size());
        c.sig += hash_str(x.second.repr()) % 1000 ? 'x' : 'y';
    }
}

void schemas(Case &c)
{
    Rng &r = c.rng;
    std::vector<std::pair<std::vector<Attr>, Intrusive_ptr<Schema>>> v;
    std::vector<std::string> names{"a", "b", "c", "", "aa"};
    for (int k = 0; k < 4; k++) {
        std::vector<Attr> m;
        std::vector<Attribute> at;
        std::size_t n = r.below(5);
        if (k != 0 && r.chance(0.5)) {
            // The same one again, perhaps with two attributes swapped or one changed
            for (auto &x : v[0].first) m.push_back(x);
            if (m.size() > 1 && r.chance(0.3)) std::swap(m[0], m.back());
            if (!m.empty() && r.chance(0.3)) m[0].sparse = !m[0].sparse;
            for (auto &x : m) at.emplace_back(fresh(x.name), x.dt, x.shape, x.strides, x.sparse);
        }
        else
            for (std::size_t i = 0; i < n; i++) {
                auto a = draw_attr(r, r.pick(names));
                m.push_back(a.first);
                at.push_back(a.second);
            }
        std::set<std::string> seen;
        bool dup = false;
        for (auto &x : m) dup = !seen.insert(x.name).second || dup;
        Intrusive_ptr<Schema> s;
        try {
            s = make_intrusive<Schema>(at);
        }
        catch (const std::exception &e) {
            CHECK(dup, "schema-rejected", "a schema with unique names: {}", e.what());
        }
        CHECK((s == nullptr) == dup, "duplicate-names", "a schema with duplicate names has been accepted");
        c.count(dup ? "rejected schemas" : "schemas");
        if (dup) {
            if (k == 0) return;
            continue;
        }
        for (std::size_t i = 0; i < m.size(); i++) {
            auto idx = s->get_index(fresh(m[i].name));
            CHECK(idx && *idx == i, "get-index", "the index of '{}' is {} instead of {}", m[i].name, idx ? fmt::format("{}", *idx) : "none", i);
        }
        for (auto &x : names)
            if (seen.count(x) == 0) CHECK(!s->get_index(x), "get-index", "there is an index of '{}'", x);
        v.push_back({m, s});
    }
    for (auto &x : v)
        for (auto &y : v) check_pair<Schema>(*x.second, *y.second, x.first == y.first, x.second->repr() + " and " + y.second->repr());
    // Examples
    auto &s = v[0];
    std::vector<Intrusive_ptr<Tensor>> ft;
    std::size_t n = r.chance(0.7) ? s.first.size() : r.below(6);
    for (std::size_t i = 0; i < n; i++) ft.push_back(make_intrusive<Dense_tensor>(Size_vector{i + 1}, make_cpu_array(Data_type::int32, i + 1)));
    auto copy = ft;
    Intrusive_ptr<Example> e;
    try {
        e = make_intrusive<Example>(s.second, std::move(copy));
    }
    catch (const std::exception &x) {
        CHECK(n != s.first.size(), "example-rejected", "{}", x.what());
    }
    CHECK((e != nullptr) == (n == s.first.size()), "example", "an example with {} features of {} attributes has been accepted", n, s.first.size());
    if (e) {
        c.count("examples");
        for (std::size_t i = 0; i < n; i++) CHECK(e->find_feature(fresh(s.first[i].name)) == ft[i] && e->features()[i] == ft[i], "find-feature", "find_feature('{}') returns another feature", s.first[i].name);
        CHECK(e->find_feature("no such name") == nullptr, "find-feature", "find_feature finds an unknown name");
        CHECK(e->schema() == *s.second && e->padding == 0, "example-fields", "the schema or padding of the example differs");
        (void)e->repr();
    }
}

void identities(Case &c)
{
    Rng &r = c.rng;
    std::vector<std::string> kn{"cpu", "cuda", "CPU", "", "cpu2"};
    std::vector<std::string> keep;
    keep.reserve(8);
    struct Dev {
        std::string kind;
        std::size_t id;
        Device dev;
    };
    std::vector<Dev> d;
    for (int i = 0; i < 6; i++) {
        keep.push_back(fresh(r.pick(kn)));
        std::size_t id = r.below(3);
        d.push_back({keep.back(), id, Device{Device_kind{keep.back()}, id}});
    }
    for (auto &x : d)
        for (auto &y : d) {
            check_pair(x.dev, y.dev, x.kind == y.kind && x.id == y.id, fmt::format("the devices {}:{} and {}:{}", x.kind, x.id, y.kind, y.id));
            check_pair(x.dev.kind(), y.dev.kind(), x.kind == y.kind, fmt::format("the device kinds {} and {}", x.kind, y.kind));
            CHECK(x.dev.id() == x.id && x.dev.kind().name() == x.kind, "device-fields", "a device shows other fields than given");
            c.count("compared devices");
        }
    CHECK(Device_kind::cpu() == Device_kind::cpu() && make_cpu_array(Data_type::int8, 1)->device() == Device{Device_kind::cpu()}, "cpu", "the device of a CPU array is not the CPU");
    std::vector<Text_encoding> e{Text_encoding::utf8, Text_encoding{"UTF-8"}, Text_encoding::utf16, Text_encoding::utf16_le, Text_encoding{fresh("UTF-16LE")}, Text_encoding::ascii_latin1, Text_encoding::utf32, Text_encoding{"x"}};
    for (auto &x : e)
        for (auto &y : e) check_pair(x, y, x.name() == y.name(), x.name() + " and " + y.name());
    // Data stores
    struct Store {
        std::string key;
        Intrusive_ptr<Data_store> s;
    };
    std::vector<Store> s;
    std::vector<std::string> paths{"/x/a", "/x/b", "/x/a.gz", "a"};
    auto m1 = make_slice("some bytes"), m2 = make_slice("some bytes");
    for (int i = 0; i < 6; i++) {
        unsigned k = static_cast<unsigned>(r.below(4));
        if (k == 0) {
            std::string p = r.pick(paths);
            s.push_back({"f" + p, make_intrusive<File>(fresh(p), r.chance(0.5))});
            CHECK(s.back().s->id() == p, "store-id", "the id of the file '{}' is '{}'", p, s.back().s->id());
        }
        else if (k == 1) {
            std::size_t at = r.below(3), n = r.in(1, 4);
            bool one = r.chance(0.5);
            s.push_back({fmt::format("m{} {} {}", one, at, n), make_intrusive<In_memory_store>((one ? m1 : m2).subslice(at, n))});
        }
        else if (k == 2) {
            std::string p = r.pick(paths);
            s.push_back({"f" + p, make_intrusive<Sagemaker_pipe>(fresh(p))});
            CHECK(s.back().s->id() == p, "store-id", "the id of the pipe '{}' is '{}'", p, s.back().s->id());
        }
        else {
            std::string id = fmt::format("t{}", r.below(3));
            s.push_back({"t" + id, make_store(make_plan("x", id))});
        }
    }
    for (auto &x : s)
        for (auto &y : s) {
            CHECK((x.s->id() == y.s->id()) == (x.key == y.key), "store-id", "the ids of the stores {} and {}: '{}' and '{}'", x.key, y.key, x.s->id(), y.s->id());
            check_pair<Data_store>(*x.s, *y.s, x.s->id() == y.s->id(), x.s->repr() + " and " + y.s->repr());
            c.count("compared stores");
        }
    // Smart pointers
    Intrusive_ptr<Data_store> a = s[0].s, b = s[1].s, none;
    CHECK(a == s[0].s && a != b && a != nullptr && none == nullptr && !none && a, "pointer", "comparison of pointers");
    CHECK(std::hash<Intrusive_ptr<Data_store>>{}(a) == std::hash<Intrusive_ptr<Data_store>>{}(s[0].s), "pointer-hash", "equal pointers have different hashes");
    auto t = std::move(a);
    CHECK(t == s[0].s && a == nullptr, "pointer", "a moved pointer");
    std::swap(t, b);
    CHECK(t == s[1].s && b == s[0].s, "pointer", "swapped pointers");
    std::unordered_set<Intrusive_ptr<Data_store>> set{t, b, t};
    CHECK(set.size() == 2, "pointer-hash", "a set of pointers");
    auto &self = t;
    t = self;
    CHECK(t == s[1].s, "pointer", "self assignment");
}

using I128 = __int128;

// Notes which handlers are called; the ones that are not overridden fall back.
struct Full_visitor : Tensor_visitor {
    std::string seen;
    const Tensor *t{};
    using Tensor_visitor::visit;
    void note(const char *s, const Tensor &x)
    {
        seen += s;
        t = &x;
    }
    void visit(Dense_tensor &x) override { note("d", x); }
    void visit(const Dense_tensor &x) override { note("D", x); }
    void visit(Coo_tensor &x) override { note("o", x); }
    void visit(const Coo_tensor &x) override { note("O", x); }
    void visit(Csr_tensor &x) override { note("r", x); }
    void visit(const Csr_tensor &x) override { note("R", x); }
};

struct General_visitor : Tensor_visitor {
    std::string seen;
    const Tensor *t{};
    using Tensor_visitor::visit;
    void visit(Tensor &x) override
    {
        seen += "t";
        t = &x;
    }
    void visit(const Tensor &x) override
    {
        seen += "T";
        t = &x;
    }
};

void check_visit(Tensor &t, const char *want)
{
    const Tensor &ct = t;
    Full_visitor f;
    t.accept(f);
    CHECK(f.t == &t && f.seen == std::string(1, want[0]), "visitor", "the handlers {} have been called", f.seen);
    f.t = nullptr;
    ct.accept(f);
    CHECK(f.t == &t && f.seen == want, "visitor", "the handlers {} have been called", f.seen);
    General_visitor g;
    t.accept(g);
    CHECK(g.t == &t && g.seen == "t", "visitor", "the handlers {} have been called", g.seen);
    ct.accept(g);
    CHECK(g.t == &t && g.seen == "tT", "visitor", "the handlers {} have been called", g.seen);
    Tensor_visitor none;
    for (int k = 0; k < 2; k++) {
        bool thrown = false;
        try {
            if (k == 0)
                t.accept(none);
            else
                ct.accept(none);
        }
        catch (const Not_supported_error &) {
            thrown = true;
        }
        CHECK(thrown, "visitor", "a visitor without handlers has accepted a tensor");
    }
}

void tensors(Case &c)
{
    Rng &r = c.rng;
    Data_type dt = r.pick(types);
    unsigned kind = static_cast<unsigned>(r.below(3));
    Size_vector shape = draw_shape(r, kind == 2 ? 3 : 4);
    std::string desc = fmt::format("kind={} type={} shape=({})", kind, static_cast<int>(dt), fmt::join(shape, ","));
    auto fields = [&](const Tensor &t, const Ssize_vector &st) {
        CHECK(t.data_type() == dt && t.shape() == shape, "tensor-fields", "{}: the type or shape differs", desc);
        CHECK(t.strides() == st, "default-strides", "{}: the strides are ({}) instead of ({})", desc, fmt::format("{}", fmt::join(t.strides(), ",")), fmt::format("{}", fmt::join(st, ",")));
        (void)t.repr();
    };
    if (kind == 0) {
        Ssize_vector given, st = row_major(shape);
        bool bad_count = false;
        if (r.chance(0.1) && !shape.empty()) {
            // A huge dimension
            shape[r.below(shape.size())] = r.pick<std::size_t>({std::size_t{1} << 63U, std::size_t{1} << 32U, ~std::size_t{0}, (std::size_t{1} << 62U) + 1});
            bool zero = std::find(shape.begin(), shape.end(), 0) != shape.end();
            std::size_t size = r.below(40);
            bool fits = zero;
            if (!fits) {
                fits = true;
                I128 elems = 1;
                for (auto d : shape) elems = elems > I128{1} << 80 ? elems : elems * static_cast<I128>(d);
                fits = elems <= static_cast<I128>(size);
            }
            c.describe(desc + " huge");
            bool ok = true;
            try {
                auto t = make_intrusive<Dense_tensor>(shape, make_cpu_array(dt, size));
            }
            catch (const std::exception &) {
                ok = false;
            }
            CHECK(ok == fits, "dense", "{}, now ({}), {} elements: accepted={}", desc, fmt::format("{}", fmt::join(shape, ",")), size, ok);
            c.count("huge shapes");
            return;
        }
        if (r.chance(0.5)) {
            given = st;
            for (auto &x : given) {
                if (r.chance(0.2)) x = static_cast<std::ptrdiff_t>(r.below(20)) - 4;
                if (r.chance(0.02)) x = r.pick<std::ptrdiff_t>({PTRDIFF_MAX, PTRDIFF_MIN, std::ptrdiff_t{1} << 62, -(std::ptrdiff_t{1} << 61)});
            }
            if (r.chance(0.1)) {
                given.push_back(1);
                bad_count = true;
            }
        }
        const Ssize_vector &eff = given.empty() ? st : given;
        I128 last = 0;
        bool zero = false, negative = false;
        if (!bad_count)
            for (std::size_t i = 0; i < shape.size(); i++) {
                zero = zero || shape[i] == 0;
                negative = negative || (eff[i] < 0 && shape[i] > 1);
                I128 x = eff[i] < 0 ? -static_cast<I128>(eff[i]) : static_cast<I128>(eff[i]);
                if (shape[i] != 0) last += x * static_cast<I128>(shape[i] - 1);
            }
        std::size_t need = zero ? 0 : last > 10000 ? 10000 : static_cast<std::size_t>(last) + 1;
        std::size_t size = r.chance(0.5) ? need : r.chance(0.5) && need != 0 ? need - 1 : need + r.below(3);
        bool fits = !bad_count && (zero || last < static_cast<I128>(size));
        desc += fmt::format(" strides=({}) data={}", fmt::join(given, ","), size);
        c.describe(desc);
        Intrusive_ptr<Dense_tensor> t;
        try {
            t = make_intrusive<Dense_tensor>(shape, make_cpu_array(dt, size), given);
        }
        catch (const std::exception &) {
        }
        // Negative strides may be rejected.
        if (!(negative && t == nullptr)) CHECK((t != nullptr) == fits, "dense", "{}: accepted={}", desc, t != nullptr);
        if (t) {
            fields(*t, eff);
            CHECK(t->data().size() == size && t->data().data_type() == dt, "tensor-data", "{}: the data array differs", desc);
            check_visit(*t, "dD");
        }
        c.count(t ? "dense tensors" : "rejected dense tensors");
    }
    else if (kind == 1) {
        std::size_t n = r.below(6), nc = r.chance(0.8) ? shape.size() : r.below(6);
        std::vector<std::unique_ptr<Device_array>> co;
        bool fits = nc == shape.size();
        for (std::size_t i = 0; i < nc; i++) {
            std::size_t m = r.chance(0.9) ? n : r.below(7);
            fits = fits && m == n;
            auto a = make_cpu_array(Data_type::size, m);
            for (auto &x : Device_array_span{*a}.as<std::size_t>()) x = i < shape.size() && shape[i] != 0 ? r.below(shape[i]) : 0;
            co.push_back(std::move(a));
        }
        desc += fmt::format(" data={} coordinates={}", n, nc);
        c.describe(desc);
        for (auto d : shape)
            if (d == 0 && n != 0) return;  // there are no indices within such a shape
        Intrusive_ptr<Coo_tensor> t;
        try {
            t = make_intrusive<Coo_tensor>(shape, make_cpu_array(dt, n), std::move(co));
        }
        catch (const std::exception &) {
        }
        CHECK((t != nullptr) == fits, "coo", "{}: accepted={}", desc, t != nullptr);
        if (t) {
            fields(*t, row_major(shape));
            CHECK(t->data().size() == n, "tensor-data", "{}: the data array differs", desc);
            for (std::size_t i = 0; i < nc; i++) CHECK(t->indices(i).size() == n, "tensor-data", "{}: the indices of dimension {} differ", desc, i);
            check_visit(*t, "oO");
            bool thrown = false;
            try {
                t->indices(nc);
            }
            catch (const std::exception &) {
                thrown = true;
            }
            CHECK(thrown, "coo-indices", "{}: there are indices of the dimension {}", desc, nc);
        }
        c.count(t ? "COO tensors" : "rejected COO tensors");
    }
    else {
        std::size_t n = r.below(6), ni = r.chance(0.85) ? n : r.below(7);
        std::size_t rows = shape.empty() ? 0 : shape.size() == 1 ? 1 : shape[0];
        std::size_t np = r.chance(0.8) ? rows + 1 : r.below(7);
        for (std::size_t i = 0; i < shape.size(); i++)
            if (shape[i] == 0) n = ni = 0;
        bool fits = shape.size() <= 2 && ni == n && np == rows + 1;
        auto idx = make_cpu_array(Data_type::size, ni);
        for (auto &x : Device_array_span{*idx}.as<std::size_t>()) x = shape.empty() ? 0 : r.below(std::max<std::size_t>(shape.back(), 1));
        auto ptr = make_cpu_array(Data_type::size, np);
        auto ps = Device_array_span{*ptr}.as<std::size_t>();
        for (std::size_t i = 0; i < np; i++) ps[i] = i == 0 ? 0 : i + 1 == np ? n : std::min(n, ps[i - 1] + r.below(3));
        desc += fmt::format(" data={} indices={} pointers={}", n, ni, np);
        c.describe(desc);
        Intrusive_ptr<Csr_tensor> t;
        try {
            t = make_intrusive<Csr_tensor>(shape, make_cpu_array(dt, n), std::move(idx), std::move(ptr));
        }
        catch (const std::exception &) {
        }
        CHECK((t != nullptr) == fits, "csr", "{}: accepted={}", desc, t != nullptr);
        if (t) {
            fields(*t, row_major(shape));
            CHECK(t->data().size() == n && t->indices().size() == n && t->indptr().size() == np, "tensor-data", "{}: the arrays differ", desc);
            check_visit(*t, "rR");
        }
        c.count(t ? "CSR tensors" : "rejected CSR tensors");
    }
    c.sig = desc;
}

void arrays(Case &c)
{
    Rng &r = c.rng;
    std::size_t n = r.below(20);
    Data_type dt = r.pick(types);
    auto a = make_cpu_array(dt, n);
    CHECK(a->size() == n && a->empty() == (n == 0) && a->data_type() == dt, "array-fields", "an array of {} elements shows {}", n, a->size());
    std::vector<double> v(n);
    for (auto &x : v) x = static_cast<double>(r.below(1000)) / 8;
    auto w = wrap_cpu_array<Data_type::float64>(std::vector<double>(v));
    auto k = w->clone();
    auto same = [&](Device_array &x) {
        auto s = Device_array_span{x}.as<double>();
        return x.data_type() == Data_type::float64 && std::equal(s.begin(), s.end(), v.begin(), v.end());
    };
    CHECK(same(*w) && same(*k), "array-data", "a wrapped or cloned array differs");
    if (n != 0) {
        CHECK(w->data() != k->data(), "array-clone", "a clone shares its data");
        Device_array_span{*k}.as<double>()[0] += 1;
        CHECK(same(*w), "array-clone", "a change of the clone changes the array");
    }
    std::vector<std::string> t;
    for (std::size_t i = 0; i < n; i++) t.push_back(std::string(r.below(40), 'x'));
    auto s = wrap_cpu_array<Data_type::string>(std::vector<std::string>(t));
    auto s2 = s->clone();
    s.reset();
    auto sp = Device_array_span{*s2}.as<std::string>();
    CHECK(std::equal(sp.begin(), sp.end(), t.begin(), t.end()), "array-clone", "a clone of a string array differs");
    c.count("arrays");
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    unsigned k = static_cast<unsigned>(r.below(10));
    c.describe(fmt::format("group {}", k));
    c.sig = fmt::format("{}", c.seed * 1000003 + c.index);
    if (k < 2)
        attributes(c);
    else if (k < 4)
        schemas(c);
    else if (k < 5)
        identities(c);
    else if (k < 6)
        arrays(c);
    else
        tensors(c);
}
}  // namespace V
