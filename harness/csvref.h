// An independent reading of the CSV grammar.
#pragma once
#include "datasets.h"

namespace V {

struct Dialect {
    char delim = ',', quote = '"';
    std::optional<char> comment{};
    bool multi = false;  // allow_quoted_new_lines
    bool skip_blank = true;
};

struct Ref_row {
    std::vector<std::string> fields;
    Bytes raw;
    bool bad = false;  // the row cannot be split into fields
};

struct Ref_table {
    std::vector<Ref_row> rows;
    bool error = false;  // the text ends inside a quoted field
};

Ref_table ref_csv(const Bytes &text, const Dialect &d);
std::vector<Bytes> ref_lines(const Bytes &text);
// Quotes a value the standard way.
Bytes csv_quote(const Bytes &v, const Dialect &d);
std::string ref_dump(const std::vector<std::string> &names, const std::vector<std::string> &values);

}  // namespace V
