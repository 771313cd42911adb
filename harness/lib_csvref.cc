#include "csvref.h"

#include <algorithm>
namespace V {

// Returns the position after the line that starts at p; end is the end of its content.
static std::size_t line_end(const Bytes &t, std::size_t p, std::size_t &end)
{
    while (p < t.size() && t[p] != '\n' && t[p] != '\r') p++;
    end = p;
    if (p == t.size()) return p;
    if (t[p] == '\r' && p + 1 < t.size() && t[p + 1] == '\n') return p + 2;
    return p + 1;
}

std::vector<Bytes> ref_lines(const Bytes &text)
{
    std::vector<Bytes> r;
    for (std::size_t p = 0, e = 0; p < text.size();) {
        std::size_t n = line_end(text, p, e);
        r.push_back(text.substr(p, e - p));
        p = n;
    }
    return r;
}

// Reads the fields of the row at p. Returns false if a quoted field is not closed.
static bool row_at(const Bytes &t, const Dialect &d, bool lines, std::size_t &p, std::size_t &end, std::vector<std::string> &fields)
{
    for (;;) {
        std::string f;
        if (p < t.size() && t[p] == d.quote) {
            p++;
            for (;;) {
                if (p == t.size()) return false;
                if (t[p] != d.quote)
                    f += t[p++];
                else if (p + 1 < t.size() && t[p + 1] == d.quote) {
                    f += d.quote;
                    p += 2;
                }
                else
                    break;
            }
            p++;
        }
        while (p < t.size() && t[p] != d.delim && !(lines && (t[p] == '\n' || t[p] == '\r'))) f += t[p++];
        fields.push_back(f);
        if (p < t.size() && t[p] == d.delim) {
            p++;
            continue;
        }
        p = line_end(t, p, end);
        return true;
    }
}

Ref_table ref_csv(const Bytes &text, const Dialect &d)
{
    Ref_table r;
    if (!d.multi) {
        for (auto &line : ref_lines(text)) {
            if (!line.empty() && d.comment && line[0] == *d.comment) continue;
            if (line.empty() && d.skip_blank) continue;
            Ref_row row;
            row.raw = line;
            std::size_t p = 0, e = 0;
            row.bad = !row_at(line, d, false, p, e, row.fields);
            r.rows.push_back(std::move(row));
        }
        return r;
    }
    for (std::size_t p = 0, e = 0; p < text.size();) {
        if (d.comment && text[p] == *d.comment) {
            p = line_end(text, p, e);
            continue;
        }
        Ref_row row;
        std::size_t b = p;
        if (!row_at(text, d, true, p, e, row.fields)) {
            r.error = true;
            return r;
        }
        row.raw = text.substr(b, e - b);
        if (row.raw.empty() && d.skip_blank) continue;
        r.rows.push_back(std::move(row));
    }
    return r;
}

Bytes csv_quote(const Bytes &v, const Dialect &d)
{
    Bytes r(1, d.quote);
    for (char c : v) {
        if (c == d.quote) r += c;
        r += c;
    }
    return r + d.quote;
}

std::string ref_dump(const std::vector<std::string> &names, const std::vector<std::string> &values)
{
    std::vector<std::size_t> o(names.size());
    for (std::size_t i = 0; i < o.size(); i++) o[i] = i;
    std::sort(o.begin(), o.end(), [&](std::size_t a, std::size_t b) { return names[a] < names[b]; });
    std::string r;
    for (auto i : o) r += "|" + quote(names[i], 1000000) + "=" + values[i];
    return r;
}

}  // namespace V
