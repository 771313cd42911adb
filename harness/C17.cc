#include <iconv.h>
#include <mlio/streams/utf8_input_stream.h>

#include <algorithm>

#include "csvref.h"
namespace V {
using namespace mlio;
const char *const property_id = "C17";
const char *const rule =
    "Each case draws a text, encodes it (UTF-8, UTF-16, UTF-32 in both byte orders by an encoder of the harness, legacy and stateful encodings by iconv in the opposite direction) with or without mark, "
    "delivers it in drawn reads, buffer and chunk sizes from seekable, non-seekable and gzip compressed stores and compares the stream, the CSV fields or the text lines with the UTF-8 text; in other "
    "cases an invalid or incomplete sequence is planted and an exception is required. Non-trivial: the text is not empty. Distinct by bytes and options.";
std::uint64_t num_cases(bool thorough) { return thorough ? 300000 : 30000; }

namespace {

using U32 = std::u32string;

void put_utf8(Bytes &b, char32_t c)
{
    if (c < 0x80)
        b += static_cast<char>(c);
    else if (c < 0x800) {
        b += static_cast<char>(0xc0 | c >> 6);
        b += static_cast<char>(0x80 | (c & 63));
    }
    else if (c < 0x10000) {
        b += static_cast<char>(0xe0 | c >> 12);
        b += static_cast<char>(0x80 | (c >> 6 & 63));
        b += static_cast<char>(0x80 | (c & 63));
    }
    else {
        b += static_cast<char>(0xf0 | c >> 18);
        b += static_cast<char>(0x80 | (c >> 12 & 63));
        b += static_cast<char>(0x80 | (c >> 6 & 63));
        b += static_cast<char>(0x80 | (c & 63));
    }
}

Bytes utf8(const U32 &s)
{
    Bytes b;
    for (auto c : s) put_utf8(b, c);
    return b;
}

void put_unit(Bytes &b, std::uint32_t v, int n, bool be)
{
    for (int i = 0; i < n; i++) b += static_cast<char>(v >> (8 * (be ? n - 1 - i : i)) & 0xff);
}

Bytes utf16(const U32 &s, bool be)
{
    Bytes b;
    for (auto c : s) {
        if (c < 0x10000)
            put_unit(b, c, 2, be);
        else {
            put_unit(b, 0xd800 + ((c - 0x10000) >> 10), 2, be);
            put_unit(b, 0xdc00 + ((c - 0x10000) & 0x3ff), 2, be);
        }
    }
    return b;
}

Bytes utf32(const U32 &s, bool be)
{
    Bytes b;
    for (auto c : s) put_unit(b, c, 4, be);
    return b;
}

// Encodes the text; characters that the encoding lacks are removed from it.
// Whether the text that iconv wrote for a character reads back as that character. Some tables are not
// one to one (the yen sign and the backslash of the Japanese encodings).
bool same_back(iconv_t back, const char *data, std::size_t size, const Bytes &want)
{
    iconv(back, nullptr, nullptr, nullptr, nullptr);
    char *i = const_cast<char *>(data);
    char buf[64];
    char *o = buf;
    std::size_t ol = sizeof(buf);
    if (iconv(back, &i, &size, &o, &ol) == static_cast<std::size_t>(-1) || size != 0) return false;
    iconv(back, nullptr, nullptr, &o, &ol);
    return Bytes(buf, sizeof(buf) - ol) == want;
}

bool legacy(const char *name, U32 &s, Bytes &out, Bytes &want)
{
    iconv_t alone = iconv_open(name, "UTF-8");
    iconv_t back = iconv_open("UTF-8", name);
    iconv_t d = iconv_open(name, "UTF-8");
    if (d == reinterpret_cast<iconv_t>(-1)) return false;
    U32 kept;
    out.clear();
    for (auto c : s) {
        Bytes one;
        put_utf8(one, c);
        char *i = one.data();
        std::size_t il = one.size();
        char buf[64];
        char *o = buf;
        std::size_t ol = sizeof(buf);
        iconv(alone, nullptr, nullptr, nullptr, nullptr);
        if (iconv(alone, &i, &il, &o, &ol) == static_cast<std::size_t>(-1) || il != 0) continue;
        iconv(alone, nullptr, nullptr, &o, &ol);
        if (!same_back(back, buf, sizeof(buf) - ol, one)) continue;
        i = one.data();
        il = one.size();
        o = buf;
        ol = sizeof(buf);
        if (iconv(d, &i, &il, &o, &ol) == static_cast<std::size_t>(-1) || il != 0) continue;
        out.append(buf, sizeof(buf) - ol);
        kept += c;
    }
    char buf[64];
    char *o = buf;
    std::size_t ol = sizeof(buf);
    iconv(d, nullptr, nullptr, &o, &ol);
    out.append(buf, sizeof(buf) - ol);
    iconv_close(d);
    iconv_close(alone);
    iconv_close(back);
    // Neighbours may be joined (e.g. a letter and an accent): take what one conversion of the whole text yields.
    back = iconv_open("UTF-8", name);
    std::vector<char> all(out.size() * 8 + 64);
    char *bi = out.data();
    std::size_t bl = out.size();
    o = all.data();
    ol = all.size();
    bool fine = iconv(back, &bi, &bl, &o, &ol) != static_cast<std::size_t>(-1) && iconv(back, nullptr, nullptr, &o, &ol) != static_cast<std::size_t>(-1);
    iconv_close(back);
    // Some converters do not accept everything that they produce.
    if (!fine) {
        out.clear();
        ol = all.size();
    }
    want.assign(all.data(), all.size() - ol);
    s = kept;
    return true;
}

U32 make_text(Rng &r)
{
    U32 s;
    std::size_t n = r.chance(0.1) ? r.below(3) : r.chance(0.1) ? r.in(100, 700) : r.below(60);
    unsigned script = static_cast<unsigned>(r.below(7));
    for (std::size_t i = 0; i < n; i++) {
        switch (r.chance(0.4) ? 0 : script) {
        case 0:
            s += static_cast<char32_t>('a' + r.below(26));
            break;
        case 1:
            s += static_cast<char32_t>(r.in(0xa0, 0xff));
            break;
        case 2:
            s += static_cast<char32_t>(r.in(0x410, 0x44f));
            break;
        case 3:
            s += static_cast<char32_t>(r.in(0x3041, 0x3093));
            break;
        case 4:
            s += static_cast<char32_t>(r.in(0x4e00, 0x4fff));
            break;
        case 5:
            s += static_cast<char32_t>(r.pick<std::uint32_t>({0x1f600, 0x10000, 0x10ffff, 0xffff, 0xfffd, 0xd7ff, 0xe000, 0x7ff, 0x800, 0x80, 0x20ac}));
            break;
        default:
            s += static_cast<char32_t>(r.pick<std::uint32_t>({0x20ac, 0xe9, 0x3b1, 0x1f600, 0x4e2d, 0xac00, 0x5d0}));
            break;
        }
        if (r.chance(0.05)) s += static_cast<char32_t>(r.pick<std::uint32_t>({0x300, 0x301, 0x309, 0xca, 0xea, 0x304b, 0x309a, 0x304, 0x30c, 0x41, 0x1b0, 0x110}));
        if (r.chance(0.08)) s += r.chance(0.3) ? U"\r\n" : U"\n";
        if (r.chance(0.01)) s += U'\ufeff';
    }
    return s;
}

struct Text {
    Bytes bytes;
    std::string want;                      // UTF-8 without the mark
    std::optional<Text_encoding> given;
    std::string name;
    bool fails = false;
    bool beyond = false;                   // a 31-bit character, which has an obsolete UTF-8 form only
};

Text make(Rng &r)
{
    Text t;
    U32 s = make_text(r);
    while (!s.empty() && (s[0] == 0xfeff || s[0] == 0xfffe || s[0] == 0)) s.erase(s.begin());
    int k = static_cast<int>(r.below(10));
    bool invalid = r.chance(0.15);
    if (k < 2) {
        bool mark = r.chance(0.5);
        if (r.chance(0.5)) t.given = r.chance(0.7) ? Text_encoding::utf8 : Text_encoding{r.pick<const char *>({"utf-8", "UTF8", "Utf-8"})};
        t.name = fmt::format("UTF-8 mark={} given={}", mark, t.given.has_value());
        if (mark && r.chance(0.05)) s = U32(1, 0xfeff) + s;  // only the first one is a mark
        t.want = utf8(s);
        t.bytes = (mark ? "\xef\xbb\xbf" : "") + t.want;
        return t;
    }
    if (k < 7) {
        bool wide = r.chance(0.4), be = r.chance(0.5), mark = r.chance(0.6);
        int how = static_cast<int>(r.below(3));  // 0: exact, 1: generic, 2: from the mark
        if (how != 0) mark = true;
        if (how == 0) t.given = wide ? (be ? Text_encoding::utf32_be : Text_encoding::utf32_le) : be ? Text_encoding::utf16_be : Text_encoding::utf16_le;
        if (how == 0 && r.chance(0.2)) t.given = Text_encoding{wide ? (be ? "utf-32be" : "UTF32LE") : be ? "utf-16be" : "UTF16LE"};
        if (how == 1) t.given = wide ? Text_encoding::utf32 : Text_encoding::utf16;
        // The 31-bit characters of UCS-4 have no UTF-8 form.
        bool ucs4 = how == 0 && wide && r.chance(0.4);
        if (ucs4) {
            mark = false;
            t.given = Text_encoding{be ? "UCS-4" : "UCS-4LE"};
        }
        auto enc = [&](const U32 &x) { return wide ? utf32(x, be) : utf16(x, be); };
        t.name = fmt::format("{}{}{} mark={} given={}", ucs4 ? "UCS-" : "UTF-", ucs4 ? 4 : wide ? 32 : 16, be ? "BE" : "LE", mark, how);
        if (invalid) {
            t.fails = true;
            std::size_t at = r.below(s.size() + 1);
            U32 a = s.substr(0, at), b = s.substr(at);
            Bytes bad;
            switch (r.below(3)) {
            case 0:
                // The last character is incomplete.
                if (!wide && r.chance(0.3))
                    put_unit(bad, 0xd801, 2, be);
                else {
                    put_unit(bad, 'x', wide ? 4 : 2, be);
                    bad.resize(r.in(1, bad.size() - 1));
                }
                b.clear();
                a = s;
                t.name += " incomplete";
                break;
            case 1:
                {
                    std::uint32_t u = r.pick<std::uint32_t>({0x110000, 0x7fffffff, 0xd800, 0xdfff});
                    put_unit(bad, wide ? u : 0xdc00, wide ? 4 : 2, be);
                    t.beyond = ucs4 && u >= 0x110000;
                }
                t.name += " invalid";
                break;
            default:
                put_unit(bad, wide ? 0xd812 : 0xd812, wide ? 4 : 2, be);
                if (!wide) put_unit(bad, 'x', 2, be);
                t.name += " lone surrogate";
                break;
            }
            t.want = utf8(a);
            t.bytes = (mark ? enc(U32(1, 0xfeff)) : Bytes{}) + enc(a) + bad + enc(b);
            // Fewer bytes than a mark cannot be told from UTF-8.
            return t;
        }
        if (mark && how != 1 && r.chance(0.05)) s = U32(1, 0xfeff) + s;
        t.want = utf8(s);
        t.bytes = (mark ? enc(U32(1, 0xfeff)) : Bytes{}) + enc(s);
        return t;
    }
    const char *name = r.pick<const char *>({"ISO-8859-1", "8859_1", "ISO-8859-5", "ISO-8859-15", "WINDOWS-1252", "WINDOWS-1251", "KOI8-R", "SHIFT_JIS", "EUC-JP", "GBK", "GB18030", "BIG5", "EUC-KR", "ISO-2022-JP", "UTF-7", "IBM037", "TIS-620", "latin1", "CP1252", "SJIS", "koi8-r", "ISO-2022-KR", "EUC-TW", "JOHAB", "IBM930", "IBM939", "MACINTOSH", "T.61", "ISO_6937", "ANSI_X3.110", "UTF-7-IMAP", "ARMSCII-8", "UHC", "IBM1371",
        // Their converters hold back letters that an accent might follow.
        "CP1258", "TCVN5712-1", "BIG5-HKSCS", "EUC-JISX0213", "SHIFT_JISX0213", "ISO-2022-JP-3"});
    s.erase(std::remove(s.begin(), s.end(), U'\ufeff'), s.end());
    legacy(name, s, t.bytes, t.want);
    t.given = name == std::string("8859_1") ? Text_encoding::ascii_latin1 : Text_encoding{name};
    t.name = name;
    if (invalid && (t.name == "SHIFT_JIS" || t.name == "EUC-JP" || t.name == "GBK" || t.name == "EUC-KR")) {
        t.fails = true;
        t.bytes += t.name == "SHIFT_JIS" ? "\x82" : "\xb0";
        t.name += " incomplete";
    }
    return t;
}

std::string strip_mark(const std::string &s) { return s.substr(0, 3) == "\xef\xbb\xbf" ? s.substr(3) : s; }

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Text t = make(r);
    Tune tune;
    std::string knobs = Tune::randomize(r, true);
    bool gz = r.chance(0.2);
    Bytes stored = gz ? deflate_bytes(t.bytes) : t.bytes;
    Intrusive_ptr<Data_store> store;
    std::shared_ptr<Plan> plan;
    bool seekable = false;
    if (r.chance(0.3) || gz)
        store = memory_store(stored, gz ? Compression::gzip : Compression::none);
    else {
        plan = make_plan(stored);
        plan->max_read = r.chance(0.3) ? 1 : r.in(1, 40);
        plan->random_reads = true;
        plan->seed = r.next();
        seekable = plan->seekable = r.chance(0.5);
        store = make_store(plan);
    }
    unsigned how = static_cast<unsigned>(r.below(3));
    if (how == 2 && t.given && !(t.given == Text_encoding::utf8)) how = 1;
    c.describe(fmt::format("{} via {} gzip={} test-store={} seekable={} {} bytes={}", t.name, how == 0 ? "stream" : how == 1 ? "CSV" : "lines", gz, plan != nullptr, seekable, knobs, quote(t.bytes, 200)));
    c.nontrivial = !t.bytes.empty();
    c.sig = fmt::format("{}|{}|{}", t.name, how, hash_str(t.bytes));
    c.count(fmt::format("{} via {}", t.fails ? "invalid" : "valid", how == 0 ? "stream" : how == 1 ? "CSV" : "lines"));
    if (how == 0) {
        std::string got;
        bool thrown = false;
        std::size_t max = r.chance(0.3) ? r.in(1, 5) : r.in(1, 300);
        auto stream = make_utf8_stream(store->open_read(), t.given);
        try {
            std::vector<std::byte> buf(max);
            for (;;) {
                std::size_t want = r.in(1, max);
                std::size_t n = stream->read(Mutable_memory_span{buf.data(), want});
                CHECK(n <= want, "read-size", "a read of {} bytes returned {}", want, n);
                if (n == 0) break;
                got.append(reinterpret_cast<char *>(buf.data()), n);
            }
            if (!t.fails) {
                std::size_t n = stream->read(Mutable_memory_span{buf.data(), max});
                CHECK(n == 0, "end", "a read after the end returned {} bytes", n);
            }
        }
        catch (const Violation &) {
            throw;
        }
        catch (const std::exception &e) {
            thrown = true;
            CHECK(t.fails, "unexpected-error", "{}: {}", exc_type(e), e.what());
        }
        std::string a = strip_mark(got);
        if (t.beyond && !thrown) {
            CHECK(got.substr(0, t.want.size()) == t.want && got.size() <= t.bytes.size() * 2, "text", "the text is {}", quote(got));
            c.count("31-bit characters");
        }
        else if (t.fails) {
            CHECK(thrown, "no-error", "an invalid sequence has been accepted; the text is {}", quote(got));
            CHECK(t.want.substr(0, a.size()) == a || got == t.want.substr(0, got.size()), "text", "before the error: {} instead of {}", quote(a), quote(t.want));
        }
        else
            CHECK(a == t.want || got == t.want, "text", "the text is {} instead of {}", quote(got), quote(t.want));
        return;
    }
    Data_reader_params p;
    p.batch_size = r.in(1, 4);
    p.dataset = {store};
    Intrusive_ptr<Data_reader> rd;
    std::string col = "value";
    if (how == 1) {
        Csv_params cp;
        cp.header_row_index = std::nullopt;
        cp.default_data_type = Data_type::string;
        cp.delimiter = '\x01';
        cp.quote_char = '\x02';
        cp.skip_blank_lines = false;
        cp.encoding = t.given;
        cp.allow_quoted_new_lines = r.chance(0.5);
        rd = make_intrusive<Csv_reader>(p, cp);
        col = "1";
    }
    else
        rd = make_intrusive<Text_line_reader>(p);
    std::vector<std::string> want;
    for (auto &l : ref_lines(t.want)) want.push_back("|" + quote(col) + "=" + str_value(l));
    auto res = read_all(*rd);
    if (t.beyond && res.error.empty()) return;
    if (t.fails) {
        CHECK(!res.error.empty(), "no-error", "an invalid sequence has been accepted");
        if (res.rows.size() < want.size()) want.resize(res.rows.size());
    }
    else
        CHECK(res.error.empty(), "unexpected-error", "{}: {}", res.error, res.error_text);
    auto diff = first_difference(want, res.rows);
    CHECK(diff.empty(), "lines", "{}", diff);
}
}  // namespace V
