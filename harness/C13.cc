#include <algorithm>

#include "csvref.h"
namespace V {
using namespace mlio;
const char *const property_id = "C13";
const char *const rule =
    "Each case draws header, naming, selection, de-duplication and type parameters, renders a table with typed columns into one to four stores (some empty or with a header only), and compares the "
    "schema and all rows with a model over one or two epochs, or expects an exception if the parameters contradict the data. Non-trivial: all. Distinct by parameters and texts.";
std::uint64_t num_cases(bool thorough) { return thorough ? 250000 : 25000; }

namespace {

struct Cell {
    std::string text;
    int kind{};  // 0: integer, 1: floating-point, 2: text
    double value{};
};

template<Data_type dt>
struct num_op {
    void operator()(double v, std::string &out)
    {
        if constexpr (dt != Data_type::string && dt != Data_type::float16) out = num(static_cast<data_type_t<dt>>(v));
    }
};

std::string expected_value(const Cell &cell, Data_type dt)
{
    if (dt == Data_type::string) return str_value(cell.text);
    std::string s;
    dispatch<num_op>(dt, cell.value, s);
    return s;
}

Data_type some_type(Rng &r, int kind)
{
    if (kind == 2) return Data_type::string;
    if (kind == 1) return r.pick({Data_type::float32, Data_type::float64, Data_type::string});
    return r.pick({Data_type::int8, Data_type::uint8, Data_type::int16, Data_type::uint16, Data_type::int32, Data_type::uint32, Data_type::int64, Data_type::uint64, Data_type::size, Data_type::float32, Data_type::float64, Data_type::string});
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Dialect d;
    Csv_params cp;
    std::string desc;
    // The columns.
    bool wide = r.chance(0.002);
    std::size_t cols = wide ? r.in(100, 700) : r.chance(0.1) ? r.in(7, 15) : r.in(1, 6);
    std::vector<int> kinds;
    std::vector<std::string> file_names;
    bool long_fields = !wide && r.chance(0.004);
    bool dups = r.chance(0.35), odd = r.chance(0.1), derived = r.chance(0.4);
    for (std::size_t i = 0; i < cols; i++) {
        kinds.push_back(static_cast<int>(r.below(3)));
        std::string n;
        if (dups)
            n = derived ? r.pick<const char *>({"a", "a", "a_1", "a_2", "a_1_1", "b"}) : r.pick<const char *>({"a", "b", "c"});
        else
            n = fmt::format("{}{}", r.pick<const char *>({"col", "x y", "n", "\xc3\xa9"}), i);
        if (odd && r.chance(0.3)) n = fmt::format("q,\"{}", i);
        if (odd && !dups && (i == 1 || cols == 1) && r.chance(0.5)) n = "";
        file_names.push_back(n);
    }
    // A header row without a single character.
    bool blank = cols == 1 && r.chance(0.2);
    if (blank) {
        file_names = {""};
        cp.skip_blank_lines = false;
    }
    // Where the names come from.
    int naming = static_cast<int>(r.below(4));  // 0: header, 1: explicit with header, 2: explicit, 3: positions
    bool header = naming < 2;
    std::size_t header_row = r.chance(0.6) ? 0 : r.in(1, 3);
    if (header)
        cp.header_row_index = header_row;
    else
        cp.header_row_index = std::nullopt;
    bool single = r.chance(0.35);
    cp.has_single_header = single;
    if (r.chance(0.3)) cp.name_prefix = "pre_";
    std::vector<std::string> names;
    bool prefixed = naming == 0 || naming == 3;
    for (std::size_t i = 0; i < cols; i++) {
        std::string n = naming == 3 ? std::to_string(i + 1) : file_names[i];
        if (naming == 1 && !dups) n = "own_" + n;
        names.push_back((prefixed ? cp.name_prefix : "") + n);
    }
    if (naming == 1 || naming == 2) cp.column_names = names;
    cp.dedupe_column_names = r.chance(0.75);
    // The stores.
    std::size_t ns = r.chance(0.5) ? 1 : r.in(2, 4);
    std::vector<std::vector<std::vector<Cell>>> tables(ns);
    std::vector<Bytes> texts;
    const char *eol = r.chance(0.3) ? "\r\n" : "\n";
    if (r.chance(0.2)) d.delim = cp.delimiter = ';';
    bool comments = r.chance(0.2);
    if (comments) cp.comment_char = '%';
    auto render = [&](const std::vector<std::string> &v) {
        Bytes b;
        if (blank && v[0].empty()) return b + eol;
        for (std::size_t i = 0; i < v.size(); i++) {
            if (i != 0) b += d.delim;
            bool need = v[i].find_first_of(",;\"") != Bytes::npos || (v[i].empty() && v.size() == 1);
            b += need || r.chance(0.1) ? csv_quote(v[i], d) : v[i];
        }
        return b + eol;
    };
    auto noise = [&](Bytes &t) {
        if (!blank && r.chance(0.1)) t += eol;
        if (comments && r.chance(0.3)) t += std::string("%a,b\"") + eol;
    };
    bool nothing = r.chance(0.05);
    bool header_seen = false;
    for (std::size_t s = 0; s < ns; s++) {
        Bytes t;
        bool empty = r.chance(0.1) && !(header && single && s == 0);
        if (!empty) {
            if (header && (!single || s == 0)) {
                for (std::size_t k = 0; k < header_row; k++) {
                    noise(t);
                    t += fmt::format("junk{}{}row{}", k, r.chance(0.5) ? "," : "", eol);
                }
                noise(t);
                // The names in the other headers do not count.
                t += render(header_seen && r.chance(0.3) ? std::vector<std::string>(cols, "other") : file_names);
                header_seen = true;
            }
            std::size_t rows = nothing ? 0 : r.below(6);
            for (std::size_t i = 0; i < rows; i++) {
                std::vector<Cell> row;
                std::vector<std::string> v;
                for (std::size_t k = 0; k < cols; k++) {
                    Cell cell;
                    cell.kind = kinds[k];
                    cell.value = static_cast<double>(r.below(120));
                    cell.text = std::to_string(static_cast<int>(cell.value));
                    if (kinds[k] == 1) {
                        cell.value += 0.25;
                        cell.text += ".25";
                    }
                    if (kinds[k] == 2) cell.text = "t" + cell.text;
                    if (kinds[k] == 2 && long_fields && r.chance(0.3)) cell.text += Bytes(r.chance(0.3) ? r.in(60000, 140000) : r.in(250, 9000), static_cast<char>('a' + r.below(26))) + "z";
                    v.push_back(cell.text);
                    row.push_back(cell);
                }
                noise(t);
                t += render(v);
                tables[s].push_back(row);
            }
        }
        texts.push_back(t);
    }
    std::vector<std::vector<Cell>> all;
    for (auto &t : tables)
        for (auto &x : t) all.push_back(x);
    bool known = naming == 1 || naming == 2 || (naming == 0 && header_seen) || !all.empty();
    // Selection.
    std::vector<char> used(cols, 1);
    if (r.chance(0.3)) {
        for (std::size_t i = 0; i < cols; i++)
            if (r.chance(0.5)) cp.use_columns.insert(names[i]);
        if (cp.use_columns.empty() || r.chance(0.2)) cp.use_columns.insert("no such column");
        for (std::size_t i = 0; i < cols; i++)
            if (cp.use_columns.count(names[i]) == 0) used[i] = 0;
    }
    if (r.chance(0.3)) {
        for (std::size_t i = 0; i < cols; i++)
            if (r.chance(0.5)) cp.use_columns_by_index.insert(i);
        if (cp.use_columns_by_index.empty()) cp.use_columns_by_index.insert(r.below(cols));
        for (std::size_t i = 0; i < cols; i++)
            if (cp.use_columns_by_index.count(i) == 0) used[i] = 0;
    }
    // Types.
    bool error = false;
    std::vector<Data_type> types(cols);
    if (r.chance(0.25)) {
        bool floats = std::find(kinds.begin(), kinds.end(), 2) == kinds.end();
        cp.default_data_type = floats ? r.pick({Data_type::float64, Data_type::float32, Data_type::string}) : Data_type::string;
    }
    for (std::size_t i = 0; i < cols; i++) {
        types[i] = kinds[i] == 0 ? Data_type::int64 : kinds[i] == 1 ? Data_type::float64 : Data_type::string;
        if (all.empty()) types[i] = Data_type::string;
        if (cp.default_data_type) types[i] = *cp.default_data_type;
        bool unique = std::count(names.begin(), names.end(), names[i]) == 1;
        if (r.chance(0.2)) {
            types[i] = some_type(r, kinds[i]);
            if (unique && r.chance(0.5))
                cp.column_types[names[i]] = types[i];
            else
                cp.column_types_by_index[i] = types[i];
        }
    }
    bool unknown = false;
    if (r.chance(0.04)) {
        cp.column_types_by_index[cols + r.below(3)] = Data_type::int32;
        unknown = true;
    }
    if (r.chance(0.04)) {
        cp.column_types["no such column"] = Data_type::int32;
        unknown = true;
    }
    // The number of names does not match.
    bool mismatch = false;
    if ((naming == 1 || naming == 2) && !all.empty() && r.chance(0.05)) {
        cp.column_names.push_back("surplus");
        mismatch = true;
    }
    // De-duplicated names.
    std::vector<std::string> attr_names;
    std::vector<std::size_t> attr_cols;
    std::map<std::string, std::size_t> seen;
    bool dup = false;
    for (std::size_t i = 0; i < cols; i++) {
        if (used[i] == 0) continue;
        std::string n = names[i];
        std::size_t k = seen[n]++;
        if (k != 0) {
            dup = true;
            n += "_" + std::to_string(k);
        }
        attr_names.push_back(n);
        attr_cols.push_back(i);
    }
    // A derived name can be the name of some other column; which one is taken
    // instead is not specified as long as the names are unique.
    bool collide = std::set<std::string>(attr_names.begin(), attr_names.end()).size() != attr_names.size();
    if (dup && !cp.dedupe_column_names) error = true;
    if (unknown || mismatch) error = true;

    Data_reader_params p;
    p.batch_size = r.in(1, 5);
    p.num_prefetched_examples = r.below(3);
    p.num_parallel_reads = r.below(3);
    Tune tune;
    if (r.chance(0.5)) Tune::randomize(r);
    if (r.chance(0.3)) Tune::cut_off(1);
    for (auto &t : texts) {
        if (r.chance(0.5))
            p.dataset.push_back(memory_store(t));
        else {
            auto plan = make_plan(t);
            plan->max_read = r.in(1, 30);
            plan->seed = r.next();
            plan->random_reads = true;
            p.dataset.push_back(make_store(plan));
        }
    }
    desc = fmt::format("naming={} header-row={} single={} prefix={} dedupe={} use={}/{} types={}/{} default={} mismatch={} unknown={} batch={} texts:", naming, header_row, single, cp.name_prefix, cp.dedupe_column_names, cp.use_columns.size(), cp.use_columns_by_index.size(), cp.column_types.size(), cp.column_types_by_index.size(), cp.default_data_type.has_value(), mismatch, unknown, p.batch_size);
    for (auto &t : texts) desc += " " + quote(t, 250);
    c.describe(desc);

    auto rd = make_intrusive<Csv_reader>(p, cp);
    std::string want;
    if (collide && !error && known) {
        auto sc = rd->read_schema();
        CHECK(sc != nullptr && sc->attributes().size() == attr_names.size(), "schema", "the schema {} has not {} columns", dump_schema(sc.get()), attr_names.size());
        std::set<std::string> taken;
        for (std::size_t i = 0; i < attr_names.size(); i++) {
            const std::string &raw = names[attr_cols[i]];
            std::string got = sc->attributes()[i].name();
            CHECK(got == raw || got.rfind(raw + "_", 0) == 0, "dedupe", "the column '{}' is called '{}'", raw, got);
            CHECK(taken.insert(got).second, "dedupe", "two columns are called '{}'", got);
            bool first = std::find(names.begin(), names.begin() + static_cast<std::ptrdiff_t>(attr_cols[i]), raw) == names.begin() + static_cast<std::ptrdiff_t>(attr_cols[i]);
            if (first && raw.find('_') == std::string::npos) CHECK(got == raw, "dedupe", "the first column '{}' is called '{}'", raw, got);
            attr_names[i] = got;
        }
        c.count("colliding derived names");
    }
    for (std::size_t i = 0; i < attr_names.size(); i++) want += dump_attr(Attribute{attr_names[i], types[attr_cols[i]], Size_vector{p.batch_size, 1}}) + ";";
    std::vector<std::string> rows;
    for (auto &x : all) {
        std::vector<std::string> v;
        for (auto i : attr_cols) v.push_back(expected_value(x[i], types[i]));
        rows.push_back(ref_dump(attr_names, v));
    }
    bool ask = r.chance(0.5);
    std::size_t epochs = r.in(1, 2);
    for (std::size_t e = 0; e < epochs; e++) {
        if (e != 0) rd->reset();
        if (error && known) {
            // Whatever is asked first must fail, and the next thing as well.
            for (int k = 0; k < 2; k++) {
                bool thrown = false;
                try {
                    if ((k == 0) == ask)
                        rd->read_schema();
                    else
                        rd->read_example();
                }
                catch (const std::exception &) {
                    thrown = true;
                }
                CHECK(thrown, "no-error", "contradicting parameters ({}) have been accepted", dup ? "duplicate names" : unknown ? "unknown column" : "number of names");
            }
            c.count("rejected");
            continue;
        }
        if (ask || e != 0) {
            auto s = rd->read_schema();
            if (!known)
                CHECK(s == nullptr, "schema", "a dataset without rows and names has the schema {}", dump_schema(s.get()));
            else {
                CHECK(s != nullptr, "schema", "there is no schema instead of {}", want);
                CHECK(dump_schema(s.get()) == want, "schema", "the schema is {} instead of {}", dump_schema(s.get()), want);
            }
        }
        if (attr_names.empty()) {
            // No column is left: nothing can be said about the rows.
            try {
                rd->read_example();
            }
            catch (const std::exception &) {
            }
            continue;
        }
        auto res = read_all(*rd);
        CHECK(res.error.empty(), "unexpected-error", "{}: {}", res.error, res.error_text);
        auto diff = first_difference(rows, res.rows);
        CHECK(diff.empty(), "rows", "{}", diff);
        if (known && !ask) CHECK(dump_schema(rd->read_schema().get()) == want, "schema", "the schema is {} instead of {}", dump_schema(rd->read_schema().get()), want);
    }
    c.count("rows", all.size());
    c.count(fmt::format("naming {}", naming));
    if (dup) c.count("duplicate names");
    if (blank && header_seen) c.count("blank header");
    c.nontrivial = true;
}
}  // namespace V
