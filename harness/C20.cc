#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>

#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C20";
const char *const rule =
    "Each case encodes images of drawn sizes, formats (PNG, JPEG, BMP, PPM, TIFF, WebP), channel counts and depths, good and bad, as files or RecordIO records, reads them with drawn dimensions, resize, "
    "channel order and bad-example handling, and compares every pixel with a reference made of the known pixels (or OpenCV's decoder) and separately computed resizing and cropping. "
    "Non-trivial: an image has been delivered or rejected. Distinct by configuration and contents.";
std::uint64_t num_cases(bool thorough) { return thorough ? 150000 : 9000; }

namespace {

struct Picture {
    Bytes encoded;
    std::string what;
    cv::Mat known;  // the pixels if the format is lossless and 8-bit
};

cv::Mat random_pixels(Rng &r, int w, int h, int ch, int depth)
{
    cv::Mat m(h, w, CV_MAKETYPE(depth == 8 ? CV_8U : CV_16U, ch));
    int style = static_cast<int>(r.below(3));
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
            for (int c = 0; c < ch; c++) {
                auto v = static_cast<unsigned>(style == 0 ? r.below(65536) : style == 1 ? (x * 4001 + y * 9001 + c * 20011) & 0xffff : ((x / 3 + y / 3) % 2 == 0 ? 60000 : 1000 * c));
                if (depth == 8)
                    m.ptr<std::uint8_t>(y)[x * ch + c] = static_cast<std::uint8_t>(v >> 8);
                else
                    m.ptr<std::uint16_t>(y)[x * ch + c] = static_cast<std::uint16_t>(v);
            }
    return m;
}

Picture make_picture(Rng &r, int w, int h)
{
    Picture p;
    int ch = static_cast<int>(r.pick<std::size_t>({1, 3, 3, 4, 4}));
    int depth = r.chance(0.12) ? 16 : 8;
    const char *ext = r.pick({".png", ".png", ".png", ".jpg", ".bmp", ".ppm", ".tiff", ".webp"});
    std::string e = ext;
    if (e == ".jpg" || e == ".ppm" || e == ".webp") ch = ch == 4 ? 3 : ch;
    if (e == ".ppm") ch = 3;
    if (e == ".webp") ch = 3;
    if (e != ".png" && e != ".tiff") depth = 8;
    cv::Mat m = random_pixels(r, w, h, ch, depth);
    std::vector<uchar> out;
    if (!cv::imencode(ext, m, out)) throw std::runtime_error{"imencode"};
    p.encoded = Bytes(out.begin(), out.end());
    p.what = fmt::format("{}x{}{}c{}d{}", w, h, ext, ch, depth);
    if (e == ".jpg" && r.chance(0.4)) {
        // Rotated or mirrored by its Exif metadata.
        char o = static_cast<char>(r.in(1, 8));
        Bytes exif = Bytes("Exif\0\0MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0", 25) + o + Bytes(6, '\0');
        p.encoded.insert(2, Bytes("\xff\xe1\0", 3) + static_cast<char>(exif.size() + 2) + exif);
        p.what += fmt::format("o{}", static_cast<int>(o));
    }
    if (depth == 8 && (e == ".png" || e == ".bmp" || e == ".ppm" || e == ".tiff") && !(e == ".bmp" && ch == 4)) p.known = m;
    return p;
}

// The reference; empty if the image is bad.
std::optional<Bytes> reference(Case &c, const Bytes &data, const cv::Mat &known, const Image_reader_params &ip)
{
    auto ch = static_cast<int>(ip.image_dimensions[0]);
    auto oh = static_cast<int>(ip.image_dimensions[1]), ow = static_cast<int>(ip.image_dimensions[2]);
    cv::Mat img;
    if (!known.empty() && known.channels() == ch) {
        img = known.clone();
        c.count("references from known pixels");
    }
    else if (!known.empty() && known.channels() == 4 && ch == 3) {
        // The alpha channel is dropped.
        img = cv::Mat(known.rows, known.cols, CV_8UC3);
        for (int y = 0; y < known.rows; y++)
            for (int x = 0; x < known.cols; x++)
                for (int k = 0; k < 3; k++) img.ptr(y)[x * 3 + k] = known.ptr(y)[x * 4 + k];
        c.count("references from known pixels");
    }
    else if (!known.empty() && known.channels() == 1 && ch == 3) {
        img = cv::Mat(known.rows, known.cols, CV_8UC3);
        for (int y = 0; y < known.rows; y++)
            for (int x = 0; x < known.cols; x++)
                for (int k = 0; k < 3; k++) img.ptr(y)[x * 3 + k] = known.ptr(y)[x];
        c.count("references from known pixels");
    }
    else {
        try {
            std::vector<uchar> buf(data.begin(), data.end());
            if (buf.empty()) return {};
            img = cv::imdecode(buf, ch == 1 ? cv::IMREAD_GRAYSCALE : ch == 3 ? cv::IMREAD_COLOR : cv::IMREAD_UNCHANGED);
        }
        catch (const cv::Exception &) {
            return {};
        }
        if (img.empty() || img.type() != CV_MAKETYPE(CV_8U, ch)) return {};
        c.count("references from the decoder");
    }
    if (ip.resize) {
        if (*ip.resize > 0x7fffffff) return {};
        auto v = static_cast<long long>(*ip.resize);
        long long nw, nh;
        if (img.rows > img.cols) {
            nw = v;
            nh = v * img.rows / img.cols;
        }
        else {
            nh = v;
            nw = v * img.cols / img.rows;
        }
        if (nw <= 0 || nh <= 0 || nw > 2147483647 || nh > 2147483647 || nw * nh > (1LL << 31)) return {};
        cv::Mat t;
        cv::resize(img, t, cv::Size{static_cast<int>(nw), static_cast<int>(nh)}, 0, 0, cv::INTER_LINEAR);
        img = t;
    }
    if (img.rows < oh || img.cols < ow) return {};
    int y0 = (img.rows - oh) / 2, x0 = (img.cols - ow) / 2;
    Bytes b;
    for (int y = 0; y < oh; y++)
        for (int x = 0; x < ow; x++)
            for (int k = 0; k < ch; k++) {
                int s = ip.to_rgb && ch >= 3 && k < 3 ? 2 - k : k;
                b.push_back(static_cast<char>(img.ptr(y0 + y)[(x0 + x) * ch + s]));
            }
    return b;
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Image_reader_params ip;
    std::size_t oh = r.chance(0.1) ? r.in(20, 60) : r.in(1, 12), ow = r.chance(0.3) ? oh : r.in(1, 12);
    if (r.chance(0.004)) {
        oh = r.in(60, 400);
        ow = r.in(60, 400);
    }
    ip.image_dimensions = {r.pick<std::size_t>({1, 3, 3, 4}), oh, ow};
    if (r.chance(0.5)) ip.resize = r.chance(0.7) ? std::max(oh, ow) + r.below(6) : r.in(1, 40);
    // Sizes nobody has the memory for, and that do not fit into 32 bits.
    if (r.chance(0.03)) ip.resize = r.pick<std::size_t>({0, 0x7fffffff, 0x80000000, (std::size_t{1} << 32U) + std::max(oh, ow), ~std::size_t{0}, 2000000000});
    ip.to_rgb = r.chance(0.5);
    ip.image_frame = r.chance(0.5) ? Image_frame::recordio : Image_frame::none;
    bool rec = ip.image_frame == Image_frame::recordio;
    std::size_t n = r.in(1, 10);
    double bad_p = r.chance(0.4) ? 0.25 : 0.0;
    std::vector<Bytes> payloads;
    std::vector<std::optional<Bytes>> expected;
    std::string desc;
    for (std::size_t i = 0; i < n; i++) {
        std::size_t slack = r.chance(0.3) ? 0 : r.below(20);
        int w = static_cast<int>(ow + slack), h = static_cast<int>(oh + (r.chance(0.3) ? slack : r.below(20)));
        if (r.chance(0.08)) w = static_cast<int>(r.in(1, ow));
        if (r.chance(0.08)) h = static_cast<int>(r.in(1, oh));
        Picture p = make_picture(r, w, h);
        if (r.chance(bad_p)) {
            p.known.release();
            switch (r.below(4)) {
            case 0:
                p.encoded = r.chance(0.5) ? "not an image" : "";
                break;
            case 1:
                p.encoded.resize(r.below(std::min<std::size_t>(p.encoded.size(), 30)));
                break;
            case 2:
                p.encoded = "\x89PNG\r\n\x1a\n" + Bytes(r.below(50), '\1');
                break;
            default:
                p.encoded[0] ^= '\x20';
                p.encoded[1] ^= '\x11';
            }
            p.what += "!";
        }
        desc += p.what + " ";
        expected.push_back(reference(c, p.encoded, p.known, ip));
        Bytes payload = p.encoded;
        if (rec) {
            payload = image_header(r) + payload;
            if (r.chance(bad_p * 0.3)) {
                payload.resize(r.below(24));
                expected.back() = std::nullopt;
                desc += "(no header) ";
            }
        }
        payloads.push_back(payload);
    }
    Data_reader_params p;
    if (rec) {
        std::size_t ns = r.in(1, 3);
        std::vector<Bytes> st(ns);
        for (std::size_t i = 0; i < n; i++) {
            Bytes &s = st[i * ns / n];
            if (r.chance(0.15) && payloads[i].size() > 4)
                for (auto &x : recordio_split(payloads[i], r.in(2, 4))) s += x;
            else
                s += recordio(payloads[i]);
        }
        for (auto &s : st) p.dataset.push_back(memory_store(s));
    }
    else {
        for (std::size_t i = 0; i < n; i++) {
            if (r.chance(0.7)) {
                p.dataset.push_back(memory_store(payloads[i]));
                continue;
            }
            std::string path = fmt::format("{}/c20-{}", c.scratch, i);
            write_file(path, payloads[i]);
            p.dataset.push_back(make_intrusive<File>(path, r.chance(0.5)));
        }
    }
    p.batch_size = r.in(1, 5);
    p.num_prefetched_examples = r.below(4);
    p.num_parallel_reads = r.below(4);
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    p.warn_bad_instances = r.chance(0.3);
    bool pad = p.bad_example_handling == Bad_example_handling::pad || p.bad_example_handling == Bad_example_handling::pad_warn;
    bool error = p.bad_example_handling == Bad_example_handling::error;
    c.describe(fmt::format("out={}x{}x{} resize={} rgb={} recordio={} batch={} bad-handling={} images: {}", ip.image_dimensions[0], oh, ow, ip.resize ? static_cast<long long>(*ip.resize) : -1, ip.to_rgb, rec, p.batch_size, static_cast<int>(p.bad_example_handling), desc));
    c.sig = fmt::format("{:x}", hash_str(c.description()));
    Log_capture log;
    auto rd = make_intrusive<Image_reader>(p, ip);
    auto schema = rd->read_schema();
    CHECK(schema != nullptr && schema->attributes().size() == 1, "schema", "no schema with one attribute");
    auto &a = schema->attributes()[0];
    Size_vector want_shape{p.batch_size, oh, ow, ip.image_dimensions[0]};
    CHECK(a.name() == "value" && a.data_type() == Data_type::uint8 && a.shape() == want_shape && !a.sparse(), "schema", "the attribute is {}", dump_attr(a));
    std::size_t row_size = oh * ow * ip.image_dimensions[0];
    std::size_t compared = 0;
    for (std::size_t i = 0; i < n; i += p.batch_size) {
        std::size_t e = std::min(n, i + p.batch_size);
        std::vector<std::size_t> good;
        for (std::size_t k = i; k < e; k++)
            if (expected[k]) good.push_back(k);
        std::size_t bad = e - i - good.size();
        c.count("bad images", bad);
        Intrusive_ptr<Example> ex;
        if (bad != 0 && error) {
            bool thrown = false;
            try {
                ex = rd->read_example();
            }
            catch (const std::exception &) {
                thrown = true;
            }
            CHECK(thrown, "bad-image", "example {} holds {} bad image(s) but is delivered", i / p.batch_size, bad);
            break;
        }
        if (bad != 0 && !pad) continue;
        try {
            ex = rd->read_example();
        }
        catch (const std::exception &x) {
            // The pipeline reads ahead: a later bad image may end it early.
            bool later = false;
            for (std::size_t k = e; k < n; k++) later = later || !expected[k];
            CHECK(error && later, "exception", "example {}: {}: {}", i / p.batch_size, exc_type(x), x.what());
            break;
        }
        CHECK(ex != nullptr, "missing", "example {} is missing", i / p.batch_size);
        check_example(*ex);
        CHECK(batch_dim(*ex) == e - i && ex->padding == bad, "padding", "example {}: batch {} padding {} instead of {} and {}", i / p.batch_size, batch_dim(*ex), ex->padding, e - i, bad);
        auto px = static_cast<const Dense_tensor &>(*ex->features()[0]).data().as<std::uint8_t>();
        for (std::size_t k = 0; k < e - i; k++)
            for (std::size_t j = 0; j < row_size; j++) {
                std::uint8_t got = px[k * row_size + j];
                std::uint8_t want = k < good.size() ? static_cast<std::uint8_t>((*expected[good[k]])[j]) : 0;
                CHECK(got == want, k < good.size() ? "pixel" : "padding", "row {} of example {} (image {}): value {} is {} instead of {}", k, i / p.batch_size, k < good.size() ? good[k] : 0, j, got, want);
            }
        compared += good.size();
    }
    c.count("images compared", compared);
}
}  // namespace V
