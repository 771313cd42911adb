#include "datasets.h"

#include <opencv2/imgcodecs.hpp>

#include <algorithm>

namespace V {

using namespace mlio;

static void le32(Bytes &b, std::uint32_t v)
{
    for (int i = 0; i < 4; i++) b.push_back(static_cast<char>(v >> (8 * i) & 0xff));
}

Bytes recordio(const Bytes &payload, unsigned kind)
{
    Bytes b;
    le32(b, 0xced7230a);
    le32(b, kind << 29U | static_cast<std::uint32_t>(payload.size()));
    b += payload;
    while (b.size() % 4 != 0) b.push_back('\0');
    return b;
}

std::vector<Bytes> recordio_split(const Bytes &payload, std::size_t parts)
{
    std::vector<Bytes> r;
    for (std::size_t i = 0; i < parts; i++) {
        std::size_t b = payload.size() * i / parts, e = payload.size() * (i + 1) / parts;
        r.push_back(recordio(payload.substr(b, e - b), i == 0 ? 1 : i + 1 == parts ? 3 : 2));
    }
    return r;
}

void Pb::varint(std::uint64_t v)
{
    while (v >= 0x80) {
        b.push_back(static_cast<char>(v | 0x80));
        v >>= 7;
    }
    b.push_back(static_cast<char>(v));
}

void Pb::bytes(unsigned field, const Bytes &v)
{
    tag(field, 2);
    varint(v.size());
    b += v;
}

Bytes pb_value(const Pb_value &v)
{
    Pb t;
    if (v.type == Pt::none) return {};
    if (v.type == Pt::bytes) {
        t.bytes(1, "data");
    }
    else {
        Pb vals;
        for (double d : v.values) {
            Pb one;
            if (v.type == Pt::f32) {
                auto f = static_cast<float>(d);
                char c[4];
                std::memcpy(c, &f, 4);
                one.b.append(c, 4);
            }
            else if (v.type == Pt::f64) {
                char c[8];
                std::memcpy(c, &d, 8);
                one.b.append(c, 8);
            }
            else
                one.varint(static_cast<std::uint64_t>(static_cast<std::int64_t>(d)));
            if (v.packed)
                vals.b += one.b;
            else {
                t.tag(1, v.type == Pt::f32 ? 5 : v.type == Pt::f64 ? 1 : 0);
                t.b += one.b;
            }
        }
        if (v.packed && !v.values.empty()) t.bytes(1, vals.b);
        if (!v.keys.empty()) {
            Pb k;
            for (auto x : v.keys) k.varint(x);
            t.bytes(2, k.b);
        }
        if (!v.shape.empty()) {
            Pb k;
            for (auto x : v.shape) k.varint(x);
            t.bytes(3, k.b);
        }
    }
    Pb r;
    r.bytes(static_cast<unsigned>(v.type), t.b);
    return r.b;
}

Bytes pb_record(const Pb_map &features, const Pb_map &labels, bool shuffle_fields)
{
    std::vector<Bytes> parts;
    auto add = [&](const Pb_map &m, unsigned field) {
        for (auto &[k, v] : m) {
            Pb e;
            e.bytes(1, k);
            e.bytes(2, pb_value(v));
            Pb r;
            r.bytes(field, e.b);
            parts.push_back(r.b);
        }
    };
    add(features, 1);
    add(labels, 2);
    if (shuffle_fields) std::reverse(parts.begin(), parts.end());
    Bytes b;
    for (auto &p : parts) b += p;
    return b;
}

Bytes encode_image(const char *ext, int w, int h, int channels, const Bytes &pixels)
{
    cv::Mat m{h, w, CV_8UC(channels), const_cast<char *>(pixels.data())};
    std::vector<uchar> out;
    if (!cv::imencode(ext, m, out)) throw std::runtime_error{"imencode"};
    return Bytes(out.begin(), out.end());
}

Bytes encode_png(int w, int h, int channels, const Bytes &pixels, int depth)
{
    cv::Mat m{h, w, CV_MAKETYPE(depth == 8 ? CV_8U : CV_16U, channels), const_cast<char *>(pixels.data())};
    std::vector<uchar> out;
    if (!cv::imencode(".png", m, out)) throw std::runtime_error{"imencode"};
    return Bytes(out.begin(), out.end());
}

Bytes image_header(Rng &r)
{
    Bytes b;
    for (int i = 0; i < 24; i++) b.push_back(static_cast<char>(r.below(256)));
    return b;
}

const char *kind_name(Kind k)
{
    switch (k) {
    case Kind::csv:
        return "csv";
    case Kind::proto:
        return "recordio-protobuf";
    case Kind::text:
        return "text-line";
    case Kind::image_rec:
        return "image-recordio";
    case Kind::image_file:
        return "image";
    }
    return "?";
}

std::vector<Row> Dataset::rows() const
{
    std::vector<Row> r;
    for (auto &s : stores) r.insert(r.end(), s.begin(), s.end());
    return r;
}

std::vector<std::string> Dataset::dumps() const
{
    std::vector<std::string> r;
    for (auto &s : stores)
        for (auto &x : s) r.push_back(x.dump);
    return r;
}

std::size_t Dataset::size() const
{
    std::size_t n = 0;
    for (auto &s : stores) n += s.size();
    return n;
}

std::vector<Intrusive_ptr<Data_store>> Dataset::memory_stores() const
{
    std::vector<Intrusive_ptr<Data_store>> r;
    for (auto &c : contents) r.push_back(memory_store(c));
    return r;
}

Intrusive_ptr<Data_reader> Dataset::open(Data_reader_params p) const
{
    if (p.dataset.empty()) p.dataset = memory_stores();
    switch (kind) {
    case Kind::csv:
        return make_intrusive<Csv_reader>(std::move(p), csv);
    case Kind::proto:
        return make_intrusive<Recordio_protobuf_reader>(std::move(p));
    case Kind::text:
        return make_intrusive<Text_line_reader>(std::move(p));
    case Kind::image_rec:
    case Kind::image_file:
        return make_intrusive<Image_reader>(std::move(p), img);
    }
    std::abort();
}

static std::string rand_text(Rng &r, std::size_t max)
{
    static const char alphabet[] = "abcdefghijklmnopqrstuvwxyzABCDEF .;:-_/()";
    std::string s = "t";
    std::size_t n = r.below(max + 1);
    for (std::size_t i = 0; i < n; i++) s += alphabet[r.below(sizeof(alphabet) - 1)];
    return s;
}

Dataset make_dataset(Rng &r, const Gen &g)
{
    Dataset d;
    d.kind = g.kind;
    std::size_t ns = g.kind == Kind::image_file ? g.num_rows : std::max<std::size_t>(g.num_stores, 1);
    d.stores.resize(ns);
    // Distribute the rows over the stores.
    std::vector<std::size_t> where(g.num_rows);
    if (g.kind == Kind::image_file)
        for (std::size_t i = 0; i < g.num_rows; i++) where[i] = i;
    else {
        for (std::size_t i = 0; i < g.num_rows; i++) where[i] = r.below(ns);
        if (!g.empty_stores)
            for (std::size_t i = 0; i < std::min(ns, g.num_rows); i++) where[i] = i;
        std::sort(where.begin(), where.end());
    }

    bool quoting = r.chance(0.5), explicit_shape = r.chance(0.5), crlf = r.chance(0.3), last_eol = r.chance(0.5);
    if (g.kind == Kind::csv) {
        if (r.chance(0.5)) {
            d.csv.column_types = {{"id", Data_type::int64}, {"f", Data_type::float64}, {"s", Data_type::string}};
        }
        if (quoting && r.chance(0.5)) d.csv.allow_quoted_new_lines = true;
    }
    // How the columns get their names.
    unsigned header = g.csv_headers && r.chance(0.5) ? static_cast<unsigned>(r.in(1, 4)) : 0;
    if (g.kind == Kind::csv) {
        if (header == 1) d.csv.has_single_header = true;
        if (header == 2) d.csv.header_row_index = std::nullopt;
        if (header == 4) d.csv.header_row_index = 2;
        if (header == 2 || header == 3) d.csv.column_names = {"id", "f", "s"};
    }
    d.img.image_frame = g.kind == Kind::image_rec ? Image_frame::recordio : Image_frame::none;
    d.img.image_dimensions = {1, 2, 3};

    for (std::size_t i = 0; i < g.num_rows; i++) {
        Row row;
        row.bad = i != 0 && g.bad > 0 && r.chance(g.bad);
        std::string filler = g.pad_len != 0 && r.chance(0.3) ? std::string(r.below(g.pad_len), 'x') : "";
        auto id = static_cast<std::int64_t>(i);
        switch (g.kind) {
        case Kind::csv: {
            double f = static_cast<double>(r.below(100000)) / 64.0 + 0.0078125;
            std::string s = rand_text(r, 12) + filler;
            std::string q = s;
            if (quoting && r.chance(0.5)) {
                s += ",\"z";
                if (d.csv.allow_quoted_new_lines) s += "\n";
                q = "\"";
                for (char c : s) {
                    if (c == '"') q += '"';
                    q += c;
                }
                q += "\"";
            }
            row.payload = fmt::format("{},{:.17g},{}", id, f, q);
            row.dump = fmt::format("|\"f\"={}|\"id\"={}|\"s\"={}", num(f), id, str_value(s));
            if (row.bad) {
                // Different kinds of bad rows; all of them carry values that must not leak.
                switch (r.below(5)) {
                case 0:
                    row.payload = fmt::format("{},x{:.17g},{}", 900000 + id, f, q);
                    break;
                case 1:
                    row.payload = fmt::format("{},{:.17g}", 900000 + id, f);
                    break;
                case 2:
                    row.payload = fmt::format("{},{:.17g},{},7", 900000 + id, f, q);
                    break;
                case 3:
                    row.payload = fmt::format("92233720368547758089,{:.17g},{}", f, q);
                    break;
                default:
                    if (d.csv.allow_quoted_new_lines)
                        row.payload = fmt::format("{}z,{:.17g},{}", 900000 + id, f, q);
                    else
                        row.payload = fmt::format("{},{:.17g},\"open", 900000 + id, f);
                    break;
                }
            }
            break;
        }
        case Kind::text: {
            std::string s = fmt::format("{}:{}", id, rand_text(r, 12)) + filler;
            row.payload = s;
            row.dump = "|\"value\"=" + str_value(s);
            row.bad = false;
            break;
        }
        case Kind::proto: {
            Pb_map ft, lb;
            Pb_value vid, v, sp, y;
            vid.type = Pt::i32;
            vid.values = {static_cast<double>(id)};
            v.type = Pt::f32;
            std::string vd;
            for (int k = 0; k < 4; k++) {
                v.values.push_back(static_cast<double>(r.below(1000)) / 8.0 + 1.0);
                vd += (k != 0 ? "," : "") + num(static_cast<float>(v.values.back()));
            }
            if (explicit_shape) v.shape = {2, 2};
            y.type = Pt::f64;
            y.values = {static_cast<double>(r.below(1000)) + 0.5};
            ft = {{"id", vid}, {"v", v}};
            std::string spd;
            if (g.sparse) {
                sp.type = Pt::f64;
                sp.shape = {3, 5};
                for (std::uint64_t k = 0; k < 15; k++)
                    if (r.chance(0.25)) {
                        sp.keys.push_back(k);
                        sp.values.push_back(static_cast<double>(r.below(1000)) / 4.0 + 1.0);
                        spd += fmt::format("({},{}):{} ", k / 5, k % 5, num(sp.values.back()));
                    }
                ft.emplace_back("sp", sp);
                spd = "|\"sp\"=" + spd;
            }
            lb = {{"y", y}};
            row.dump = fmt::format("|\"id\"={}|\"label_y\"={}{}|\"v\"={}", id, num(y.values[0]), spd, vd);
            if (row.bad) {
                ft[0].second.values[0] += 900000;
                switch (r.below(9)) {
                case 0:
                    ft.erase(ft.begin() + static_cast<std::ptrdiff_t>(r.below(ft.size())));
                    break;
                case 1:
                    ft.emplace_back("extra", vid);
                    break;
                case 2:
                    ft[0].second.type = Pt::f64;
                    break;
                case 3:
                    ft[1].second.values.pop_back();
                    if (explicit_shape) ft[1].second.shape = {3, 1};
                    break;
                case 4:
                    if (g.sparse) {
                        ft[2].second.keys = {3, 99};
                        ft[2].second.values = {5.0, 6.0};
                    }
                    else
                        lb[0].second.values.push_back(1.0);
                    break;
                case 5:
                    if (g.sparse) {
                        ft[2].second.keys = {3, 4, 5};
                        ft[2].second.values = {5.0, 6.0};
                    }
                    else
                        lb[0].first = "z";
                    break;
                case 6:
                    lb[0].second.type = Pt::none;
                    break;
                case 7:
                    ft[1].second.keys = {0, 1, 2, 3};
                    ft[1].second.shape = {2, 2};
                    break;
                default:
                    ft[0].second.type = Pt::bytes;
                    break;
                }
            }
            row.payload = pb_record(ft, lb, r.chance(0.3));
            if (!filler.empty()) {
                Pb u;
                u.bytes(3, filler);
                row.payload += u.b;
            }
            if (row.bad && r.chance(0.2)) row.payload = row.payload.substr(0, row.payload.size() - 1) + "\xff";
            break;
        }
        case Kind::image_rec:
        case Kind::image_file: {
            Bytes px;
            for (int k = 0; k < 6; k++) px.push_back(static_cast<char>(r.below(256)));
            px[0] = static_cast<char>(id & 0xff);
            px[1] = static_cast<char>(id >> 8);
            std::string pd;
            for (unsigned char c : px) pd += (pd.empty() ? "" : ",") + num(c);
            row.dump = "|\"value\"=" + pd;
            Bytes img = encode_png(3, 2, 1, px);
            if (row.bad) {
                switch (r.below(4)) {
                case 0:
                    img = "no image at all";
                    break;
                case 1:
                    img = encode_png(2, 2, 1, Bytes(4, '\x55'));
                    break;
                case 2:
                    img = img.substr(0, 20);
                    break;
                default:
                    img = encode_png(3, 1, 1, Bytes(3, '\x55'));
                    break;
                }
            }
            row.payload = g.kind == Kind::image_rec ? image_header(r) + img : img;
            if (row.bad && g.kind == Kind::image_rec && r.chance(0.25)) row.payload = row.payload.substr(0, r.below(24));
            break;
        }
        }
        d.stores[where[i]].push_back(std::move(row));
    }

    for (std::size_t s = 0; s < ns; s++) {
        Bytes c;
        const char *eol = crlf ? "\r\n" : "\n";
        if (g.kind == Kind::csv) {
            if (header == 4) c += fmt::format("some,junk{}{}junk{}", eol, s, eol);
            if (header == 3)
                c += std::string("x,y,z") + eol;
            else if (header != 2 && (header != 1 || s == 0))
                c += std::string("id,f,s") + eol;
        }
        for (std::size_t i = 0; i < d.stores[s].size(); i++) {
            auto &p = d.stores[s][i].payload;
            switch (g.kind) {
            case Kind::csv:
            case Kind::text:
                c += p;
                if (last_eol || i + 1 != d.stores[s].size()) c += eol;
                break;
            case Kind::proto:
            case Kind::image_rec:
                if (p.size() > 3 && r.chance(0.15))
                    for (auto &x : recordio_split(p, 2 + r.below(3))) c += x;
                else
                    c += recordio(p);
                break;
            case Kind::image_file:
                c += p;
                break;
            }
        }
        d.contents.push_back(std::move(c));
    }
    return d;
}

Result read_all(Data_reader &rd, std::size_t limit)
{
    Result r;
    try {
        for (std::size_t i = 0; i < limit; i++) {
            Intrusive_ptr<Example> e = rd.read_example();
            if (e == nullptr) return r;
            auto rows = example_rows(*e);
            r.sizes.push_back(rows.size());
            r.batches.push_back(batch_dim(*e));
            r.paddings.push_back(e->padding);
            for (auto &x : rows) r.rows.push_back(std::move(x));
        }
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &e) {
        r.error = exc_type(e);
        r.error_text = e.what();
        return r;
    }
    violate("endless", "the reader returned {} examples", limit);
}

std::string first_difference(const std::vector<std::string> &expected, const std::vector<std::string> &got)
{
    std::size_t n = std::min(expected.size(), got.size());
    for (std::size_t i = 0; i < n; i++)
        if (expected[i] != got[i]) return fmt::format("row {} is {} instead of {} ({} rows, {} expected)", i, got[i].substr(0, 400), expected[i].substr(0, 400), got.size(), expected.size());
    if (expected.size() != got.size())
        return fmt::format("{} rows instead of {}; {} {}", got.size(), expected.size(), expected.size() > n ? "missing:" : "surplus:", (expected.size() > n ? expected : got)[n].substr(0, 400));
    return "";
}

}  // namespace V
