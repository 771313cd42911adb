#include <algorithm>

#include "csvref.h"
namespace V {
using namespace mlio;
const char *const property_id = "C07";
const char *const rule =
    "Each case draws a CSV dialect and options, texts (random over delimiters, quotes, line breaks, comment characters and ordinary or multi-byte characters, or tables written with standard "
    "quoting) for one to three stores, delivered whole or in small reads with drawn chunk sizes, reads all columns as strings and compares every row and field with a reference parser or the table. "
    "Non-trivial: at least two rows or a quoted field or an unclosed quote. Distinct by texts and options.";
std::uint64_t num_cases(bool thorough) { return thorough ? 300000 : 45000; }

namespace {

struct Expect {
    std::vector<std::string> rows;
    bool error = false, no_schema = false;
    std::size_t examples{};
};

// What the handling mode makes of the rows of all stores.
Expect model(const std::vector<Ref_table> &tables, std::size_t batch, Bad_example_handling mode)
{
    Expect x;
    std::vector<const Ref_row *> rows;
    for (auto &t : tables) {
        for (auto &r : t.rows) rows.push_back(&r);
        if (t.error) {
            x.error = true;
            break;
        }
    }
    if (rows.empty()) {
        x.no_schema = true;
        return x;
    }
    if (rows[0]->bad) {
        x.error = true;
        return x;
    }
    std::size_t n = rows[0]->fields.size();
    std::vector<std::string> names;
    for (std::size_t i = 1; i <= n; i++) names.push_back(std::to_string(i));
    for (std::size_t b = 0; b < rows.size(); b += batch) {
        std::size_t e = std::min(rows.size(), b + batch);
        if (e - b < batch && x.error) break;  // the error comes before the batch is complete
        std::vector<std::string> good;
        bool bad = false;
        for (std::size_t i = b; i < e; i++) {
            if (rows[i]->bad || rows[i]->fields.size() != n) {
                bad = true;
                continue;
            }
            std::vector<std::string> v;
            for (auto &f : rows[i]->fields) v.push_back(str_value(f));
            good.push_back(ref_dump(names, v));
        }
        if (bad && mode == Bad_example_handling::error) {
            x.error = true;
            return x;
        }
        if (bad && mode == Bad_example_handling::skip) continue;
        x.examples++;
        for (auto &g : good) x.rows.push_back(std::move(g));
    }
    return x;
}

std::string random_text(Rng &r, const Dialect &d, std::size_t len)
{
    std::string t;
    int style = static_cast<int>(r.below(4));
    for (std::size_t i = 0; i < len; i++) {
        switch (r.below(style == 0 ? 7 : 10)) {
        case 0:
            t += d.delim;
            break;
        case 1:
        case 2:
            t += d.quote;
            break;
        case 3:
            t += r.pick<const char *>({"\n", "\n", "\r", "\r\n", "\n\n", "\r\r\n"});
            break;
        case 4:
            t += d.comment ? *d.comment : '#';
            break;
        case 5:
            t += r.pick<const char *>({" ", "\t", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "'", ";"});
            break;
        default:
            t += static_cast<char>('a' + r.below(4));
            break;
        }
    }
    return t;
}

std::string field_value(Rng &r, const Dialect &d, bool breaks)
{
    std::string v;
    std::size_t n = r.chance(0.02) ? r.in(100, 400) : r.chance(0.0008) ? r.in(3000, 90000) : r.below(7);
    for (std::size_t i = 0; i < n; i++) {
        switch (r.below(8)) {
        case 0:
            v += d.delim;
            break;
        case 1:
            v += d.quote;
            break;
        case 2:
            if (breaks) {
                v += r.pick<const char *>({"\n", "\r", "\r\n"});
                break;
            }
            [[fallthrough]];
        case 3:
            v += r.pick<const char *>({" ", "#", "\xc3\xa9", "\xf0\x9f\x98\x80"});
            break;
        default:
            v += static_cast<char>('a' + r.below(26));
        }
    }
    return v;
}

std::string options(const Dialect &d)
{
    return fmt::format("delim={} quote={} comment={} quoted-lines={} skip-blank={}", quote(std::string(1, d.delim)), quote(std::string(1, d.quote)), d.comment ? quote(std::string(1, *d.comment)) : "none", d.multi, d.skip_blank);
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Dialect d;
    if (r.chance(0.4)) d.delim = r.pick({';', '\t', '|', ' ', ':'});
    if (r.chance(0.25)) d.quote = '\'';
    if (r.chance(0.35)) d.comment = r.pick({'#', '%', 'a'});
    d.multi = r.chance(0.55);
    d.skip_blank = r.chance(0.6);
    std::size_t ns = r.chance(0.75) ? 1 : r.in(2, 3);
    std::vector<Bytes> texts;
    std::vector<Ref_table> tables;
    bool table_mode = r.chance(0.35);
    std::size_t cols = r.chance(0.1) ? r.in(5, 12) : r.chance(0.0015) ? r.in(100, 800) : r.in(1, 4);
    for (std::size_t s = 0; s < ns; s++) {
        Bytes t;
        Ref_table tab;
        if (table_mode) {
            const char *eol = r.pick<const char *>({"\n", "\r\n", "\r"});
            std::size_t rows = r.below(12);
            for (std::size_t i = 0; i < rows; i++) {
                if (d.comment && r.chance(0.15)) t += fmt::format("{}{}{}{}", *d.comment, d.quote, field_value(r, d, false), eol);
                if (d.skip_blank && r.chance(0.1)) t += eol;
                Ref_row row;
                Bytes line;
                for (std::size_t k = 0; k < cols; k++) {
                    Bytes v = field_value(r, d, d.multi), q = v;
                    bool need = v.find(d.delim) != Bytes::npos || v.find(d.quote) != Bytes::npos || v.find_first_of("\r\n") != Bytes::npos || (d.comment && !v.empty() && v[0] == *d.comment) || (cols == 1 && v.empty());
                    if (need || r.chance(0.2)) q = csv_quote(v, d);
                    if (k != 0) line += d.delim;
                    line += q;
                    row.fields.push_back(v);
                }
                tab.rows.push_back(row);
                t += line;
                if (i + 1 != rows || r.chance(0.7)) t += eol;
            }
        }
        else {
            t = random_text(r, d, r.chance(0.3) ? r.below(8) : r.below(60));
            tab = ref_csv(t, d);
        }
        texts.push_back(std::move(t));
        tables.push_back(std::move(tab));
    }
    Data_reader_params p;
    p.batch_size = r.in(1, 4);
    p.num_prefetched_examples = r.below(3);
    p.bad_example_handling = r.pick({Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::pad, Bad_example_handling::pad});
    Csv_params cp;
    cp.header_row_index = std::nullopt;
    cp.default_data_type = Data_type::string;
    cp.delimiter = d.delim;
    cp.quote_char = d.quote;
    cp.comment_char = d.comment;
    cp.allow_quoted_new_lines = d.multi;
    cp.skip_blank_lines = d.skip_blank;
    if (r.chance(0.2)) cp.max_line_length = 4000000;
    if (r.chance(0.2)) cp.max_field_length = 4000000;
    Tune tune;
    std::string knobs = Tune::randomize(r);
    bool streams = r.chance(0.5);
    bool bom = r.chance(0.1);
    for (auto &t : texts) {
        Bytes b = (bom ? "\xef\xbb\xbf" : "") + t;
        if (streams) {
            auto plan = make_plan(b);
            plan->max_read = r.chance(0.3) ? 1 : r.in(1, 20);
            plan->random_reads = true;
            plan->seed = r.next();
            p.dataset.push_back(make_store(plan));
        }
        else
            p.dataset.push_back(memory_store(b));
    }
    std::string all;
    for (auto &t : texts) all += quote(t, 300) + " ";
    c.describe(fmt::format("{} {} batch={} bad={} streams={} bom={} {} texts: {}", table_mode ? "table" : "random", options(d), p.batch_size, static_cast<int>(p.bad_example_handling), streams, bom, knobs, all));
    Expect x = model(tables, p.batch_size, p.bad_example_handling);
    std::size_t nrows = 0;
    for (auto &t : tables) nrows += t.rows.size();

    auto rd = make_intrusive<Csv_reader>(p, cp);
    if (r.chance(0.2)) {
        try {
            rd->read_schema();
        }
        catch (const std::exception &) {
        }
    }
    std::size_t epochs = r.chance(0.15) ? 2 : 1;
    for (std::size_t e = 0; e < epochs; e++) {
        if (e != 0) rd->reset();
        auto res = read_all(*rd);
        if (x.error) {
            CHECK(!res.error.empty(), "no-error", "the text has an unclosed quote or a bad row, but the reader did not fail");
            auto prefix = x.rows;
            if (res.rows.size() < prefix.size()) prefix.resize(res.rows.size());
            auto diff = first_difference(prefix, res.rows);
            CHECK(diff.empty(), "rows", "before the error: {}", diff);
        }
        else {
            CHECK(res.error.empty(), "unexpected-error", "{}: {}", res.error, res.error_text);
            auto diff = first_difference(x.rows, res.rows);
            CHECK(diff.empty(), "rows", "{}", diff);
            CHECK(res.sizes.size() == x.examples, "examples", "{} examples instead of {}", res.sizes.size(), x.examples);
        }
    }
    c.count("rows", nrows);
    c.count(table_mode ? "tables" : "random texts");
    if (x.error) c.count("failing texts");
    c.nontrivial = nrows > 1 || x.error || all.find("\\\"") != std::string::npos;
}
}  // namespace V
