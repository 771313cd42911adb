#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C15";
const char *const rule =
    "Each case draws a set of features and labels (types, ranks, shapes, dense or sparse, special values), encodes instances that fit the schema of the first one or deviate from it in one way, "
    "reads them in serial or parallel decoding with a drawn batch size and handling mode, and compares the schema and every value and coordinate with the encoded ones. "
    "Non-trivial: at least two instances. Distinct by layout and content.";
std::uint64_t num_cases(bool thorough) { return thorough ? 250000 : 16000; }

namespace {

struct Feature {
    std::string name;  // as in the message
    bool label{};
    Pb_value v;
};

struct Attr {
    std::string name;
    Pt type{};
    std::vector<std::uint64_t> shape;
    bool sparse{};
};

std::string attr_name(const Feature &f) { return (f.label ? "label_" : "") + f.name; }

bool is_sparse(const Pb_value &v) { return !v.keys.empty() || (v.values.empty() && !v.shape.empty()); }

std::vector<std::uint64_t> shape_of(const Pb_value &v)
{
    if (!v.shape.empty()) return v.shape;
    return {v.values.size()};
}

std::uint64_t volume(const std::vector<std::uint64_t> &s)
{
    std::uint64_t p = 1;
    for (auto d : s) p *= d;
    return p;
}

std::string value(Pt t, double d)
{
    if (t == Pt::f32) return num(static_cast<float>(d));
    if (t == Pt::f64) return num(d);
    return num(static_cast<std::int32_t>(d));
}

// Whether an instance has exactly the features of the schema.
bool fits(const std::vector<Attr> &schema, const std::vector<Feature> &inst)
{
    if (schema.size() != inst.size()) return false;
    for (auto &f : inst) {
        auto n = attr_name(f);
        if (std::count_if(inst.begin(), inst.end(), [&](const Feature &g) { return attr_name(g) == n; }) != 1) return false;
        auto a = std::find_if(schema.begin(), schema.end(), [&](const Attr &x) { return x.name == n; });
        if (a == schema.end() || f.v.type != a->type || is_sparse(f.v) != a->sparse || shape_of(f.v) != a->shape) return false;
        if (!a->sparse) {
            if (f.v.values.size() != volume(a->shape)) return false;
        }
        else {
            if (f.v.values.size() != f.v.keys.size()) return false;
            for (auto k : f.v.keys)
                if (k >= volume(a->shape)) return false;
        }
    }
    return true;
}

std::string dump(std::vector<Feature> inst)
{
    std::sort(inst.begin(), inst.end(), [](const Feature &a, const Feature &b) { return attr_name(a) < attr_name(b); });
    std::string s;
    for (auto &f : inst) {
        s += "|" + quote(attr_name(f), 1000000) + "=";
        if (!is_sparse(f.v)) {
            for (std::size_t i = 0; i < f.v.values.size(); i++) s += (i != 0 ? "," : "") + value(f.v.type, f.v.values[i]);
            continue;
        }
        for (std::size_t i = 0; i < f.v.keys.size(); i++) {
            std::vector<std::uint64_t> c(f.v.shape.size());
            auto k = f.v.keys[i];
            for (std::size_t d = c.size(); d-- > 0;) {
                c[d] = k % f.v.shape[d];
                k /= f.v.shape[d];
            }
            s += "(";
            for (std::size_t d = 0; d < c.size(); d++) s += (d != 0 ? "," : "") + std::to_string(c[d]);
            s += "):" + value(f.v.type, f.v.values[i]) + " ";
        }
    }
    return s;
}

double draw(Rng &r, Pt t)
{
    if (t == Pt::i32) {
        if (r.chance(0.3)) return r.pick({0.0, -1.0, 2147483647.0, -2147483648.0, 127.0, 128.0});
        return static_cast<double>(static_cast<std::int32_t>(r.next()));
    }
    if (r.chance(0.1)) return r.pick({0.0, -0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e-45, 3.4028234663852886e38});
    double d = std::ldexp(static_cast<double>(static_cast<std::int64_t>(r.next())), static_cast<int>(r.below(60)) - 90);
    return t == Pt::f32 ? static_cast<double>(static_cast<float>(d)) : d;
}

void fill(Rng &r, Feature &f, bool sparse, bool first)
{
    auto &v = f.v;
    v.values.clear();
    v.keys.clear();
    v.packed = !r.chance(0.15);
    std::uint64_t n = v.shape.empty() ? v.values.size() : volume(v.shape);
    if (!sparse) {
        for (std::uint64_t i = 0; i < n; i++) v.values.push_back(draw(r, v.type));
        return;
    }
    std::size_t nnz = first && r.chance(0.8) ? r.in(1, 4) : r.below(r.chance(0.1) ? 30 : 6);
    for (std::size_t i = 0; i < nnz && n != 0; i++) {
        v.keys.push_back(r.chance(0.2) ? (r.chance(0.5) ? 0 : n - 1) : r.below(n));
        v.values.push_back(draw(r, v.type));
    }
    if (r.chance(0.7)) std::sort(v.keys.begin(), v.keys.end());
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    // The layout.
    std::size_t nf = r.chance(0.1) ? r.in(5, 10) : r.in(1, 4), nl = r.below(3);
    std::vector<Feature> layout;
    std::vector<char> sparse;
    bool any_sparse = r.chance(0.6);
    for (std::size_t i = 0; i < nf + nl; i++) {
        Feature f;
        f.label = i >= nf;
        f.name = r.chance(0.5) ? fmt::format("{}{}", f.label ? "y" : "f", i) : r.pick<const char *>({"values", "a", "label_a", "b", "label_values", "\xc3\xa9", ""});
        if (std::any_of(layout.begin(), layout.end(), [&](auto &g) { return attr_name(g) == attr_name(f); })) continue;
        f.v.type = r.pick({Pt::f32, Pt::f64, Pt::i32});
        bool sp = any_sparse && r.chance(0.5);
        std::size_t rank = r.chance(0.6) ? 1 : r.in(2, 4);
        for (std::size_t d = 0; d < rank; d++) f.v.shape.push_back(r.chance(0.05) ? 0 : r.in(1, rank == 1 ? 9 : 4));
        if (sp && r.chance(0.15)) f.v.shape = {std::uint64_t{1} << r.in(20, 40), r.in(1, 7)};
        layout.push_back(f);
        sparse.push_back(sp ? 1 : 0);
    }
    // The instances.
    std::size_t n = r.chance(0.05) ? 1 : r.in(2, 24);
    bool scale = r.chance(0.004);
    if (scale) n = r.in(200, 900);
    double p_bad = r.chance(0.5) ? 0.0 : 0.15;
    std::vector<std::vector<Feature>> inst;
    std::vector<Attr> schema;
    std::vector<char> good;
    std::string kinds;
    for (std::size_t i = 0; i < n; i++) {
        auto x = layout;
        for (std::size_t k = 0; k < x.size(); k++) {
            fill(r, x[k], sparse[k] != 0, i == 0);
            // A dense vector may do without a shape.
            if (!is_sparse(x[k].v) && x[k].v.shape.size() == 1 && !x[k].v.values.empty() && r.chance(0.5)) x[k].v.shape.clear();
        }
        if (i == 0) {
            for (auto &f : x) {
                if (!is_sparse(f.v) && f.v.values.empty()) f.v.shape.clear();
                schema.push_back({attr_name(f), f.v.type, shape_of(f.v), is_sparse(f.v)});
            }
            // Later instances follow the first one.
            for (std::size_t k = 0; k < x.size(); k++) sparse[k] = schema[k].sparse ? 1 : 0;
        }
        else if (r.chance(p_bad)) {
            auto &f = x[r.below(x.size())];
            unsigned kind = static_cast<unsigned>(r.below(16));
            kinds += fmt::format("{}:{} ", i, kind);
            switch (kind) {
            case 0:
                x.pop_back();
                break;
            case 1: {
                Feature g = f;
                g.name += "x";
                x.push_back(g);
                break;
            }
            case 2:
                f.name += "x";
                break;
            case 3:
                f.v.type = f.v.type == Pt::f32 ? Pt::f64 : Pt::f32;
                break;
            case 4:
                f.v.type = r.chance(0.5) ? Pt::bytes : Pt::none;
                break;
            case 5:
                if (!f.v.shape.empty()) f.v.shape.back()++;
                break;
            case 6:
                if (!f.v.shape.empty()) f.v.shape.push_back(1);
                break;
            case 7:
                f.v.values.push_back(1.5);
                break;
            case 8:
                if (!f.v.values.empty()) f.v.values.pop_back();
                break;
            case 9:
                if (!f.v.keys.empty()) f.v.keys.back() = volume(f.v.shape) + r.pick<std::uint64_t>({0, 1, 1000});
                break;
            case 10:
                if (!f.v.keys.empty()) f.v.keys.back() = std::numeric_limits<std::uint64_t>::max() - r.below(3);
                break;
            case 11:
                if (f.v.keys.empty() && !f.v.values.empty()) {
                    f.v.shape = shape_of(f.v);
                    for (std::size_t k = 0; k < f.v.values.size(); k++) f.v.keys.push_back(k);
                }
                break;
            case 12:
                if (!f.v.keys.empty()) f.v.keys.push_back(0);
                break;
            case 13:
                // No key is valid if one of the dimensions is zero.
                for (std::size_t k = 0; k < x.size(); k++)
                    if (sparse[k] != 0 && volume(x[k].v.shape) == 0) {
                        x[k].v.keys = {r.chance(0.5) ? 0 : r.below(5)};
                        x[k].v.values = {1.5};
                    }
                break;
            case 14: {
                // A label and a feature that end up with the same name in place of another one.
                Feature g = f;
                if (!g.label && g.name.substr(0, 6) != "label_") break;
                g.name = g.label ? "label_" + g.name : g.name.substr(6);
                g.label = !g.label;
                if (x.size() >= 2) {
                    std::size_t k = r.below(x.size());
                    if (&x[k] != &f) x[k] = g;
                }
                break;
            }
            default:
                // The same name as a label and as a feature.
                f.label = !f.label;
                if (!f.label && f.name.substr(0, 6) != "label_") f.name = "label_" + f.name;
                break;
            }
        }
        if (i != 0) {
            for (auto &f : x)
                if (!f.v.keys.empty() && f.v.shape.empty()) f.v.shape = {f.v.values.size()};
            // A label whose type is not set has no sparseness; the type decides.
        }
        bool ok = fits(schema, x);
        good.push_back(ok ? 1 : 0);
        inst.push_back(std::move(x));
    }
    // The files.
    std::size_t ns = r.chance(0.7) ? 1 : r.in(2, 3);
    std::vector<Bytes> texts(ns);
    for (std::size_t i = 0; i < n; i++) {
        Pb_map ft, lb;
        for (auto &f : inst[i]) (f.label ? lb : ft).emplace_back(f.name, f.v);
        Bytes b = pb_record(ft, lb, r.chance(0.3));
        texts[i * ns / n] += recordio(b);
    }
    Data_reader_params p;
    p.batch_size = r.chance(0.2) ? n : r.in(1, 6);
    if (scale && r.chance(0.8)) p.batch_size = r.in(50, n);
    p.num_prefetched_examples = r.below(3);
    p.bad_example_handling = r.pick({Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::pad, Bad_example_handling::pad, Bad_example_handling::skip_warn, Bad_example_handling::pad_warn});
    p.warn_bad_instances = r.chance(0.1);
    bool pad_last = r.chance(0.2);
    if (pad_last) p.last_example_handling = Last_example_handling::pad;
    for (auto &t : texts) p.dataset.push_back(memory_store(t));
    Tune tune;
    if (r.chance(0.4)) Tune::randomize(r);
    bool prl = r.chance(0.6);
    if (prl) Tune::cut_off(1);
    std::string ls;
    for (auto &a : schema) {
        ls += fmt::format("{}:{}[", quote(a.name), static_cast<int>(a.type));
        for (auto d : a.shape) ls += std::to_string(d) + ",";
        ls += a.sparse ? "]s " : "] ";
    }
    c.describe(fmt::format("{}n={} stores={} batch={} bad={} pad-last={} parallel={} deviations={}", ls, n, ns, p.batch_size, static_cast<int>(p.bad_example_handling), pad_last, prl, kinds));

    std::vector<std::string> want_attrs;
    for (auto &a : schema) {
        Size_vector sh{p.batch_size};
        for (auto d : a.shape) sh.push_back(d);
        want_attrs.push_back(dump_attr(Attribute{a.name, a.type == Pt::f32 ? Data_type::float32 : a.type == Pt::f64 ? Data_type::float64 : Data_type::int32, sh, {}, a.sparse}));
    }
    std::sort(want_attrs.begin(), want_attrs.end());
    using B = Bad_example_handling;
    bool skip = p.bad_example_handling == B::skip || p.bad_example_handling == B::skip_warn;
    std::vector<std::string> want;
    std::vector<std::size_t> sizes;
    bool error = false;
    for (std::size_t b = 0; b < n && !error; b += p.batch_size) {
        bool bad = false;
        std::vector<std::string> rows;
        for (std::size_t i = b; i < std::min(n, b + p.batch_size); i++) {
            if (good[i] == 0)
                bad = true;
            else
                rows.push_back(dump(inst[i]));
        }
        if (bad && p.bad_example_handling == B::error) {
            error = true;
            break;
        }
        if (bad && skip) continue;
        sizes.push_back(rows.size());
        for (auto &x : rows) want.push_back(x);
    }
    Log_capture log;
    auto rd = make_intrusive<Recordio_protobuf_reader>(p);
    auto s = rd->read_schema();
    CHECK(s != nullptr, "schema", "there is no schema");
    std::vector<std::string> got_attrs;
    for (auto &a : s->attributes()) got_attrs.push_back(dump_attr(a));
    std::sort(got_attrs.begin(), got_attrs.end());
    CHECK(want_attrs == got_attrs, "schema", "{}", first_difference(want_attrs, got_attrs));
    auto res = read_all(*rd);
    if (error) {
        CHECK(!res.error.empty(), "no-error", "a bad instance has been accepted");
        if (res.rows.size() < want.size()) want.resize(res.rows.size());
        auto diff = first_difference(want, res.rows);
        CHECK(diff.empty(), "rows", "before the error: {}", diff);
    }
    else {
        CHECK(res.error.empty(), "unexpected-error", "{}: {}", res.error, res.error_text);
        auto diff = first_difference(want, res.rows);
        CHECK(diff.empty(), "rows", "{}", diff);
        CHECK(res.sizes == sizes, "examples", "the examples have other numbers of instances than expected");
    }
    c.count("instances", n);
    c.count("bad instances", static_cast<std::uint64_t>(std::count(good.begin(), good.end(), 0)));
    for (auto &a : schema) c.count(a.sparse ? "sparse features" : "dense features");
    c.nontrivial = n > 1;
}
}  // namespace V
