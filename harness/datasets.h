// Generators of datasets whose content is known, and the model of the instance selection.
#pragma once
#include "stores.h"

namespace V {

// --- encoders ---------------------------------------------------------------
Bytes recordio(const Bytes &payload, unsigned kind = 0);
// Splits a payload into begin, middle and end records.
std::vector<Bytes> recordio_split(const Bytes &payload, std::size_t parts);

struct Pb {
    Bytes b;
    void varint(std::uint64_t v);
    void tag(unsigned field, unsigned wire) { varint(field << 3U | wire); }
    void bytes(unsigned field, const Bytes &v);
};
enum class Pt { f32 = 2, f64 = 3, i32 = 7, bytes = 9, none = 0 };
struct Pb_value {
    Pt type = Pt::f32;
    std::vector<double> values{};
    std::vector<std::uint64_t> keys{}, shape{};
    bool packed = true;
};
Bytes pb_value(const Pb_value &v);
using Pb_map = std::vector<std::pair<std::string, Pb_value>>;
Bytes pb_record(const Pb_map &features, const Pb_map &labels, bool shuffle_fields = false);

Bytes encode_png(int w, int h, int channels, const Bytes &pixels, int depth = 8);
Bytes encode_image(const char *ext, int w, int h, int channels, const Bytes &pixels);
// The header MXNet puts in front of an image in a RecordIO record.
Bytes image_header(Rng &r);

// --- datasets ---------------------------------------------------------------
enum class Kind { csv, proto, text, image_rec, image_file };
inline const std::vector<Kind> all_kinds{Kind::csv, Kind::proto, Kind::text, Kind::image_rec, Kind::image_file};
const char *kind_name(Kind k);

struct Row {
    std::string dump;
    Bytes payload;
    bool bad = false;
};

struct Dataset {
    Kind kind{};
    std::vector<std::vector<Row>> stores;
    std::vector<Bytes> contents;
    mlio::Csv_params csv{};
    mlio::Image_reader_params img{};

    std::vector<std::string> dumps() const;
    std::vector<Row> rows() const;
    std::size_t size() const;
    // Sets params.dataset unless it has been set.
    mlio::Intrusive_ptr<mlio::Data_reader> open(mlio::Data_reader_params p) const;
    std::vector<mlio::Intrusive_ptr<mlio::Data_store>> memory_stores() const;
};

struct Gen {
    Kind kind = Kind::csv;
    std::size_t num_rows = 10, num_stores = 1;
    bool empty_stores = true;     // allow stores without instances
    double bad = 0.0;             // probability of bad rows (never the first one of the dataset)
    std::size_t pad_len = 0;      // additional payload bytes of some rows
    bool sparse = true;           // sparse features in protobuf datasets
    bool csv_headers = true;      // vary the header parameters of CSV datasets
};
Dataset make_dataset(Rng &r, const Gen &g);

// --- model of the instance selection (without shuffling) ---------------------
struct Selection {
    std::size_t skip{};
    std::optional<std::size_t> read{};
    std::size_t shard_index{}, num_shards{};
};
template<typename T>
std::vector<T> range_select(const std::vector<T> &v, const mlio::Data_reader_params &p)
{
    std::size_t b = std::min(p.num_instances_to_skip, v.size());
    std::size_t n = v.size() - b;
    if (p.num_instances_to_read) n = std::min(n, *p.num_instances_to_read);
    return std::vector<T>(v.begin() + static_cast<std::ptrdiff_t>(b), v.begin() + static_cast<std::ptrdiff_t>(b + n));
}

// --- reading ----------------------------------------------------------------
struct Result {
    std::vector<std::string> rows;        // all rows without padding
    std::vector<std::size_t> sizes;       // rows of each example without padding
    std::vector<std::size_t> batches;     // batch dimension of each example
    std::vector<std::size_t> paddings;
    std::string error;                    // type of the exception that ended the epoch
    std::string error_text;
};
// Reads until no example is returned or an exception is thrown.
Result read_all(mlio::Data_reader &r, std::size_t limit = 1000000);
std::string first_difference(const std::vector<std::string> &expected, const std::vector<std::string> &got);

}  // namespace V
