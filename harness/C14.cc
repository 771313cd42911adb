#include <mlio/util/cast.h>
#include <mlio/util/number.h>
#include <mlio/util/string.h>

#include <algorithm>
#include <cfloat>
#include <cmath>

#include "csvref.h"
namespace V {
using namespace mlio;
const char *const property_id = "C14";
const char *const rule =
    "Each case draws field texts around the limits of the data types (integers at and beyond the limits in many bases, decimal midpoints between adjacent floating-point numbers, over- and "
    "underflows, signs, white space, garbage, NaN texts), parses them with the parsers, the inference and a CSV reader (with NaN values, number base and field length limits) and compares with exact "
    "arithmetic. Non-trivial: all. Distinct by texts and options.";
std::uint64_t num_cases(bool thorough) { return thorough ? 400000 : 35000; }

namespace {

using I128 = __int128;

bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

std::string strip(std::string s)
{
    while (!s.empty() && space(s.front())) s.erase(s.begin());
    while (!s.empty() && space(s.back())) s.pop_back();
    return s;
}

// The integer that a text denotes; saturates far outside of all types.
bool ref_int(const std::string &text, int base, I128 &v)
{
    std::string s = strip(text);
    if (base == 0) base = 10;
    if (base < 2 || base > 36) return false;
    std::size_t p = 0;
    bool neg = false;
    if (p < s.size() && (s[p] == '+' || s[p] == '-')) neg = s[p++] == '-';
    if (base == 16 && s.size() - p > 2 && s[p] == '0' && (s[p + 1] | 32) == 'x') p += 2;
    if (p == s.size()) return false;
    const I128 cap = I128{1} << 80;
    v = 0;
    for (; p < s.size(); p++) {
        int dg = -1;
        if (s[p] >= '0' && s[p] <= '9') dg = s[p] - '0';
        if (s[p] >= 'a' && s[p] <= 'z') dg = s[p] - 'a' + 10;
        if (s[p] >= 'A' && s[p] <= 'Z') dg = s[p] - 'A' + 10;
        if (dg < 0 || dg >= base) return false;
        v = std::min(v * base + dg, cap);
    }
    if (neg) v = -v;
    return true;
}

// Whether the text is a decimal number (no infinity, no NaN).
bool is_decimal(const std::string &s)
{
    std::size_t p = 0, n = 0;
    if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
    while (p < s.size() && s[p] >= '0' && s[p] <= '9') p++, n++;
    if (p < s.size() && s[p] == '.') {
        p++;
        while (p < s.size() && s[p] >= '0' && s[p] <= '9') p++, n++;
    }
    if (n == 0) return false;
    if (p < s.size() && (s[p] | 32) == 'e') {
        p++;
        if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++;
        std::size_t b = p;
        while (p < s.size() && s[p] >= '0' && s[p] <= '9') p++;
        if (p == b) return false;
    }
    return p == s.size();
}

enum class Num { value, nan, bad, unsure };

template<typename T>
Num ref_float(const std::string &text, const std::unordered_set<std::string> &nans, T &v)
{
    std::string s = strip(text);
    if (is_decimal(s)) {
        v = std::is_same_v<T, float> ? static_cast<T>(std::strtof(s.c_str(), nullptr)) : static_cast<T>(std::strtod(s.c_str(), nullptr));
        return std::isinf(v) ? Num::bad : Num::value;
    }
    if (nans.count(s) != 0) {
        // The text of an infinity is a number that is out of range.
        return Num::nan;
    }
    std::string l = s;
    for (auto &ch : l)
        if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
    if (l == "nan" || l == "-nan" || l == "+nan") return Num::nan;
    // nan(...) and hexadecimal notations are extensions.
    if (l.find("nan") != std::string::npos || l.find("0x") != std::string::npos) return Num::unsure;
    return Num::bad;
}

template<typename T>
std::string ref_value(const std::string &text, const Parser_options &o, bool size, bool &unsure)
{
    if constexpr (std::is_floating_point_v<T>) {
        T v{};
        switch (ref_float<T>(text, o.nan_values, v)) {
        case Num::value:
            return num(v);
        case Num::nan:
            return "nan";
        case Num::unsure:
            unsure = true;
            [[fallthrough]];
        default:
            return "bad";
        }
    }
    else {
        I128 v{};
        if (!ref_int(text, size ? 10 : o.base, v)) return "bad";
        // "-0" has no meaning for unsigned types that everybody agrees on.
        if (std::is_unsigned_v<T> && v == 0 && text.find('-') != std::string::npos) unsure = true;
        if (v < static_cast<I128>(std::numeric_limits<T>::min()) || v > static_cast<I128>(std::numeric_limits<T>::max())) return "bad";
        return num(static_cast<T>(v));
    }
}

// The expected value in canonical form or "bad".
template<Data_type dt>
struct ref_op {
    void operator()(const std::string &t, const Parser_options &o, std::string &out, bool &unsure)
    {
        if constexpr (dt == Data_type::string)
            out = str_value(t);
        else if constexpr (dt == Data_type::float16)
            out = "bad";
        else
            out = ref_value<data_type_t<dt>>(t, o, dt == Data_type::size, unsure);
    }
};

std::string ref(Data_type dt, const std::string &t, const Parser_options &o, bool &unsure)
{
    std::string s;
    unsure = false;
    dispatch<ref_op>(dt, t, o, s, unsure);
    return s;
}

template<Data_type dt>
struct parse_op {
    void operator()(const std::string &t, const Parser_options &o, std::string &out)
    {
        using T = data_type_t<dt>;
        auto arr = make_cpu_array(dt, 3);
        Device_array_span span{*arr};
        auto before = span.template as<T>();
        auto p = make_parser(dt, o);
        auto r = p(t, span, 1);
        if (r != Parse_result::ok) {
            out = "bad";
            return;
        }
        if constexpr (dt == Data_type::string)
            out = str_value(before[1]);
        else if constexpr (dt == Data_type::float16)
            out = "value";
        else {
            out = num(before[1]);
            CHECK(num(before[0]) == num(T{}) && num(before[2]) == num(T{}), "neighbours", "a parser has changed another element");
        }
    }
};

template<typename T>
Parse_result parse_one(const std::string &t, int base, std::string &out)
{
    T v{};
    Parse_result r{};
    if constexpr (std::is_floating_point_v<T>)
        r = try_parse_float<T>(t, v);
    else
        r = try_parse_int<T>(t, v, Int_parse_options{base});
    out = r == Parse_result::ok ? num(v) : "bad";
    return r;
}

std::string big(I128 v, int base, bool upper)
{
    bool neg = v < 0;
    if (neg) v = -v;
    std::string s;
    do {
        int dg = static_cast<int>(v % base);
        s += static_cast<char>(dg < 10 ? '0' + dg : (upper ? 'A' : 'a') + dg - 10);
        v /= base;
    } while (v != 0);
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}

std::string int_text(Rng &r, int base)
{
    I128 v = 0;
    switch (r.below(4)) {
    case 0:
        v = static_cast<I128>(r.below(300)) - 100;
        break;
    case 1:
        v = static_cast<I128>(r.next());
        if (r.chance(0.5)) v = -v / 2;
        break;
    default: {
        unsigned bits = static_cast<unsigned>(r.pick({7, 8, 15, 16, 31, 32, 63, 64}));
        v = I128{1} << bits;
        if (r.chance(0.3)) v *= r.in(1, 12);
        if (r.chance(0.4)) v = -v;
        v += static_cast<I128>(r.below(5)) - 2;
        break;
    }
    }
    if (r.chance(0.05)) v *= 1000000007;
    std::string s = big(v, base, r.chance(0.3));
    if (r.chance(0.1)) {
        std::size_t p = s[0] == '-' ? 1 : 0;
        s.insert(p, std::string(r.in(1, 30), '0'));
    }
    if (s[0] != '-' && r.chance(0.1)) s = "+" + s;
    if (base == 16 && r.chance(0.3)) s.insert(s[0] == '-' || s[0] == '+' ? 1 : 0, r.chance(0.5) ? "0x" : "0X");
    return s;
}

std::string float_text(Rng &r)
{
    char buf[1600];
    switch (r.below(7)) {
    case 0:
        return fmt::format("{}", static_cast<double>(static_cast<std::int64_t>(r.next() % 2000001) - 1000000) / 64.0);
    case 1: {
        // The exact middle of two adjacent doubles, or close to it.
        std::uint64_t u = r.next();
        double d{};
        std::memcpy(&d, &u, 8);
        if (r.chance(0.6)) d = std::ldexp(1.0 + static_cast<double>(r.next() >> 12) * 0x1p-52, static_cast<int>(r.below(120)) - 60);
        if (!std::isfinite(d)) d = DBL_MAX;
        if (std::fabs(d) < 1e-250) d = 1.5e-250;
        auto m = (static_cast<long double>(d) + static_cast<long double>(std::nextafter(d, HUGE_VAL))) / 2;
        if (!std::isfinite(m)) m = DBL_MAX;
        std::snprintf(buf, sizeof(buf), "%.1100Le", m);
        std::string s = buf;
        std::size_t e = s.find('e'), z = s.find_last_not_of('0', e - 1);
        s.erase(z + 1, e - z - 1);
        e = s.find('e');
        if (r.chance(0.4)) s.insert(e, r.chance(0.5) ? "1" : "0000000001");
        if (r.chance(0.2)) s = s.substr(0, std::min<std::size_t>(e, 18)) + s.substr(s.find('e'));
        return s;
    }
    case 2: {
        // The middle of two adjacent floats.
        float f = std::ldexp(1.0F + static_cast<float>(r.next() >> 41) * 0x1p-23F, static_cast<int>(r.below(250)) - 125);
        double m = (static_cast<double>(f) + static_cast<double>(std::nextafterf(f, HUGE_VALF))) / 2;
        std::snprintf(buf, sizeof(buf), "%.300e", m);
        std::string s = buf;
        std::size_t e = s.find('e'), z = s.find_last_not_of('0', e - 1);
        s.erase(z + 1, e - z - 1);
        if (r.chance(0.4)) s.insert(s.find('e'), "000000000000000000001");
        return s;
    }
    case 3:
        return r.pick<const char *>({"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.8e308", "-1.8e308", "1e309", "3.4028234e38", "3.4028235e38", "3.4028236e38", "3.5e38", "1e39", "-1e39",
                                     "4.9e-324", "2.4e-324", "2.5e-324", "1e-400", "1.4e-45", "7e-46", "1.1754943508222875e-38", "2.2250738585072011e-308", "1e-50", "1e99999", "1e-99999", "0e99999", "123456789012345678901234567890"});
    case 4: {
        std::string s;
        std::size_t n = r.in(1, 40);
        for (std::size_t i = 0; i < n; i++) s += static_cast<char>('0' + r.below(10));
        s.insert(r.below(s.size() + 1), ".");
        if (r.chance(0.3)) s += fmt::format("e{}", static_cast<int>(r.below(80)) - 40);
        return (r.chance(0.3) ? "-" : "") + s;
    }
    case 5:
        return r.pick<const char *>({"nan", "NaN", "NAN", "-nan", "+nan", "inf", "-inf", "Infinity", "INF", "+inf", "infinit", "na", "nanx"});
    default:
        std::uint64_t u = r.next();
        double d{};
        std::memcpy(&d, &u, 8);
        return fmt::format("{:.17g}", d);
    }
}

std::string garbage(Rng &r)
{
    static const char a[] = "0123456789+-.eExX abcfnNiI_'/%\t";
    std::string s;
    std::size_t n = r.below(8);
    for (std::size_t i = 0; i < n; i++) s += a[r.below(sizeof(a) - 1)];
    return s;
}

std::string field(Rng &r, int base)
{
    std::string s;
    switch (r.below(8)) {
    case 0:
        s = garbage(r);
        break;
    case 1:
    case 2:
    case 3:
        s = float_text(r);
        break;
    default:
        s = int_text(r, base < 2 || base > 36 ? 10 : base);
        break;
    }
    if (r.chance(0.1)) s = std::string(r.in(1, 3), r.pick({' ', '\t', '\v', '\f'})) + s;
    if (r.chance(0.1)) s += std::string(r.in(1, 3), r.pick({' ', '\t', '\v', '\f'}));
    if (r.chance(0.03)) s += r.pick<const char *>({"x", ".", "e", "0 1", "-", ",", "\xc3\xa9"});
    if (r.chance(0.03)) {
        // Characters that are no white space.
        std::string x = r.pick<std::string>({std::string(1, '\0'), "\x1c", "\x1f", "\x7f", "\b", "\xc2\xa0", "\xc2\x85", "\xe2\x80\x83"});
        s.insert(r.chance(0.4) ? 0 : r.chance(0.7) ? s.size() : r.below(s.size() + 1), x);
    }
    if (r.chance(0.01)) s.clear();
    return s;
}

const std::vector<Data_type> all_types{Data_type::size, Data_type::float32, Data_type::float64, Data_type::int8, Data_type::int16, Data_type::int32, Data_type::int64, Data_type::uint8, Data_type::uint16, Data_type::uint32, Data_type::uint64, Data_type::string};

std::string dtn(Data_type dt)
{
    std::ostringstream s;
    s << dt;
    return s.str();
}

std::string short_text(const std::string &s) { return quote(s, 120); }

std::string inferred(const std::string &t)
{
    bool u{};
    Parser_options o;
    if (t.empty()) return "string";
    if (ref(Data_type::int64, t, o, u) != "bad") return "int64";
    if (ref(Data_type::uint64, t, o, u) != "bad") return "uint64";
    auto f = ref(Data_type::float64, t, o, u);
    if (u) return "";
    return f != "bad" ? "float64" : "string";
}

void direct(Case &c)
{
    Rng &r = c.rng;
    Parser_options o;
    if (r.chance(0.5)) o.base = static_cast<int>(r.chance(0.6) ? r.pick({2, 8, 10, 16, 36}) : static_cast<int>(r.below(39)));
    if (r.chance(0.3)) o.nan_values = {"NA", "null", "-", ""};
    std::vector<std::string> texts;
    std::string desc;
    for (int i = 0; i < 12; i++) {
        texts.push_back(field(r, o.base));
        if (!o.nan_values.empty() && r.chance(0.2)) texts.back() = r.pick<const char *>({"NA", " NA ", "null", "Null", "-", "", "\tnull"});
        desc += short_text(texts.back()) + " ";
    }
    c.describe(fmt::format("parsers base={} nan-values={}: {}", o.base, o.nan_values.size(), desc));
    for (auto &t : texts) {
        for (auto dt : all_types) {
            bool unsure{};
            std::string want = ref(dt, t, o, unsure), got;
            dispatch<parse_op>(dt, t, o, got);
            CHECK(unsure || want == got, "parser", "{} parsed as {} (base {}) is {} instead of {}", short_text(t), dtn(dt), o.base, got, want);
            c.count(want == "bad" ? "rejected" : "parsed");
        }
        auto check = [&](auto zero, Data_type dt) {
            using T = decltype(zero);
            bool unsure{};
            Parser_options plain;
            plain.base = o.base;
            std::string want = ref(dt, t, plain, unsure), got;
            auto res = parse_one<T>(t, o.base, got);
            CHECK(unsure || want == got, "number", "{} as {} (base {}) is {} instead of {}", short_text(t), dtn(dt), o.base, got, want);
            // Out-of-range numbers are reported as such.
            I128 v{};
            if (std::is_integral_v<T> && !unsure && want == "bad" && (o.base == 10 || o.base == 0) && ref_int(t, o.base, v) && !(std::is_unsigned_v<T> && v < 0)) CHECK(res == Parse_result::overflowed, "overflow", "{} as {} is not reported as out of range", short_text(t), dtn(dt));
        };
        check(std::int8_t{}, Data_type::int8);
        check(std::int16_t{}, Data_type::int16);
        check(std::int32_t{}, Data_type::int32);
        check(std::int64_t{}, Data_type::int64);
        check(std::uint8_t{}, Data_type::uint8);
        check(std::uint16_t{}, Data_type::uint16);
        check(std::uint32_t{}, Data_type::uint32);
        check(std::uint64_t{}, Data_type::uint64);
        check(float{}, Data_type::float32);
        check(double{}, Data_type::float64);
        auto inf = inferred(t);
        if (!inf.empty()) CHECK(dtn(infer_data_type(t)) == inf, "inference", "the type of {} is inferred as {} instead of {}", short_text(t), dtn(infer_data_type(t)), inf);
    }
}

void through_reader(Case &c)
{
    Rng &r = c.rng;
    Dialect d;
    Csv_params cp;
    cp.header_row_index = std::nullopt;
    int base = 10;
    if (r.chance(0.3)) base = cp.parser_options.base = r.pick({2, 8, 16, 36});
    if (r.chance(0.4)) cp.parser_options.nan_values = {"NA", "?", ""};
    std::optional<std::size_t> limit;
    if (r.chance(0.35)) limit = cp.max_field_length = r.in(1, 20);
    auto handling = static_cast<Max_field_length_handling>(r.below(3));
    cp.max_field_length_handling = handling;
    std::size_t cols = r.in(1, 4), rows = r.in(1, 12);
    bool infer = r.chance(0.25) && !limit;
    std::vector<Data_type> types;
    for (std::size_t i = 0; i < cols; i++) {
        types.push_back(r.pick(all_types));
        if (!infer) cp.column_types_by_index[i] = types[i];
    }
    // Columns that are left out are neither parsed nor limited.
    std::vector<char> used(cols, 1);
    if (cols > 1 && r.chance(0.3)) {
        for (auto &x : used) x = r.chance(0.6) ? 1 : 0;
        used[r.below(cols)] = 1;
        for (std::size_t i = 0; i < cols; i++)
            if (used[i] != 0) cp.use_columns_by_index.insert(i);
        c.count("readers that leave columns out");
    }
    Bytes text;
    std::vector<std::vector<std::string>> table;
    bool unsure_any = false;
    for (std::size_t i = 0; i < rows; i++) {
        std::vector<std::string> row;
        for (std::size_t k = 0; k < cols; k++) {
            std::string f = field(r, base);
            bool u{};
            // Mostly values that fit.
            for (int n = 0; n < 6 && r.chance(0.8) && ref(types[k], f, cp.parser_options, u) == "bad"; n++) f = field(r, base);
            if (types[k] == Data_type::string && r.chance(0.5)) f += std::string(r.below(25), 'y');
            if (!cp.parser_options.nan_values.empty() && r.chance(0.1)) f = r.pick<const char *>({"NA", " ? ", ""});
            if (f.find('\xc3') != std::string::npos && limit) f = "1";
            row.push_back(f);
        }
        for (std::size_t k = 0; k < cols; k++) {
            if (k != 0) text += ',';
            bool need = row[k].find_first_of(",\"\n\r") != std::string::npos || (cols == 1 && row[k].empty());
            text += need || r.chance(0.1) ? csv_quote(row[k], d) : row[k];
        }
        text += '\n';
        table.push_back(row);
    }
    std::vector<std::string> names;
    for (std::size_t k = 0; k < cols; k++) {
        if (used[k] != 0) names.push_back(std::to_string(k + 1));
        if (infer) {
            auto n = inferred(table[0][k]);
            if (n.empty() && used[k] != 0) unsure_any = true;
            types[k] = n == "int64" ? Data_type::int64 : n == "uint64" ? Data_type::uint64 : n == "float64" ? Data_type::float64 : Data_type::string;
        }
    }
    Data_reader_params p;
    p.batch_size = r.in(1, 4);
    p.bad_example_handling = r.pick({Bad_example_handling::pad, Bad_example_handling::pad, Bad_example_handling::error, Bad_example_handling::skip});
    p.dataset = {memory_store(text)};
    Tune tune;
    if (r.chance(0.5)) Tune::randomize(r);
    if (r.chance(0.5)) Tune::cut_off(1);
    std::string tn;
    for (std::size_t k = 0; k < cols; k++) tn += dtn(types[k]) + (used[k] != 0 ? " " : "(unused) ");
    c.describe(fmt::format("reader types={}{} base={} nan-values={} limit={} handling={} batch={} bad={} text={}", infer ? "(inferred) " : "", tn, base, cp.parser_options.nan_values.size(), limit ? *limit : 0, static_cast<int>(handling), p.batch_size, static_cast<int>(p.bad_example_handling), quote(text, 500)));
    std::vector<std::string> want;
    bool error = false;
    std::size_t truncated = 0;
    for (std::size_t b = 0; b < rows && !error; b += p.batch_size) {
        std::vector<std::string> good;
        bool any = false;
        for (std::size_t i = b; i < std::min(rows, b + p.batch_size); i++) {
            std::vector<std::string> v;
            bool bad = false;
            for (std::size_t k = 0; k < cols && !bad; k++) {
                if (used[k] == 0) continue;
                std::string t = table[i][k];
                if (limit && t.size() > *limit) {
                    if (handling == Max_field_length_handling::treat_as_bad) {
                        bad = true;
                        break;
                    }
                    t = t.substr(0, *limit);
                    truncated++;
                }
                bool u{};
                auto x = ref(types[k], t, cp.parser_options, u);
                if (u) unsure_any = true;
                if (x == "bad") bad = true;
                v.push_back(x);
            }
            if (bad)
                any = true;
            else
                good.push_back(ref_dump(names, v));
        }
        if (any && p.bad_example_handling == Bad_example_handling::error) {
            error = true;
            break;
        }
        if (any && p.bad_example_handling == Bad_example_handling::skip) continue;
        for (auto &g : good) want.push_back(g);
    }
    if (unsure_any) {
        c.nontrivial = false;
        return;
    }
    Log_capture log;
    auto rd = make_intrusive<Csv_reader>(p, cp);
    auto res = read_all(*rd);
    if (error) {
        CHECK(!res.error.empty(), "no-error", "a field that cannot be parsed has been accepted");
        if (res.rows.size() < want.size()) want.resize(res.rows.size());
    }
    else
        CHECK(res.error.empty(), "unexpected-error", "{}: {}", res.error, res.error_text);
    auto diff = first_difference(want, res.rows);
    CHECK(diff.empty(), "rows", "{}", diff);
    std::size_t warnings = log.take().size();
    if (!error && p.bad_example_handling == Bad_example_handling::pad) {
        std::size_t w = handling == Max_field_length_handling::truncate_warn ? truncated : 0;
        CHECK(warnings == w, "warnings", "{} warnings instead of {}", warnings, w);
    }
    c.count("rows", rows);
    c.count("truncated fields", truncated);
}

}  // namespace

template<typename T, typename U>
static void narrow_one(Case &c, U u)
{
    auto v = static_cast<__int128>(u);
    bool fits = v >= static_cast<__int128>(std::numeric_limits<T>::min()) && v <= static_cast<__int128>(std::numeric_limits<T>::max());
    T t{};
    bool ok = try_narrow(u, t);
    CHECK(ok == fits, "narrow", "{} of {} bits narrows to {} of {} bits: {}", u, 8 * sizeof(U), std::is_signed<T>::value ? "signed" : "unsigned", 8 * sizeof(T), ok);
    if (fits) CHECK(static_cast<__int128>(t) == v, "narrow-value", "{} becomes {}", u, t);
    c.count("narrowing conversions");
}

template<typename U>
static void narrow_all(Case &c, U u)
{
    narrow_one<std::int8_t>(c, u);
    narrow_one<std::int16_t>(c, u);
    narrow_one<std::int32_t>(c, u);
    narrow_one<std::int64_t>(c, u);
    narrow_one<std::uint8_t>(c, u);
    narrow_one<std::uint16_t>(c, u);
    narrow_one<std::uint32_t>(c, u);
    narrow_one<std::uint64_t>(c, u);
}

// The conversion between integer types that the readers use
static void narrow(Case &c)
{
    Rng &r = c.rng;
    std::uint64_t u = r.chance(0.6) ? (std::uint64_t{1} << r.below(64)) + r.below(5) - 2 : r.next() >> r.below(64);
    if (r.chance(0.3)) u = ~u + 1;
    c.describe(fmt::format("narrowing of {:#x}", u));
    narrow_all(c, u);
    narrow_all(c, static_cast<std::int64_t>(u));
    narrow_all(c, static_cast<std::uint32_t>(u));
    narrow_all(c, static_cast<std::int32_t>(u));
    narrow_all(c, static_cast<std::uint8_t>(u));
    narrow_all(c, static_cast<std::int8_t>(u));
    std::size_t value = 0;
    std::string text = fmt::format("{}{}{}", Bytes(r.below(3), ' '), u, Bytes(r.below(3), '\t'));
    CHECK(try_parse_size_t(text, value) == Parse_result::ok && value == u, "size", "{} is parsed as {}", quote(text), value);
    // White space is that of the "C" locale.
    Bytes s;
    for (std::size_t n = r.below(12); s.size() < n;) s += r.chance(0.7) ? " \t\n\v\f\r"[r.below(6)] : r.chance(0.3) ? static_cast<char>(r.next()) : 'x';
    static const char space[] = " \t\n\v\f\r";
    auto a = s.find_first_not_of(space), z = s.find_last_not_of(space);
    Bytes want = a == Bytes::npos ? Bytes{} : s.substr(a, z - a + 1);
    CHECK(trim(s) == want, "trim", "{} trimmed is {} instead of {}", quote(s), quote(Bytes{trim(s)}), quote(want));
    CHECK(is_whitespace_only(s) == want.empty(), "white-space", "{} {} white space only", quote(s), is_whitespace_only(s) ? "is" : "is not");
    CHECK(as_string_view(stdx::span<const std::byte>{reinterpret_cast<const std::byte *>(s.data()), s.size()}) == s, "view", "{} is viewed as something else", quote(s));
    c.nontrivial = true;
    c.sig = c.description();
}

void run_case(Case &c)
{
    if (c.rng.chance(0.01)) return narrow(c);
    if (c.rng.chance(0.5))
        direct(c);
    else
        through_reader(c);
}
}  // namespace V
