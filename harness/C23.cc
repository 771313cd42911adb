#include <algorithm>

#include "stores.h"
namespace V {
using namespace mlio;
const char *const property_id = "C23";
const char *const rule =
    "Each case runs a drawn sequence of allocations, resizes (failing ones included), writes, slicing in all forms, copies, drops and out-of-range requests over heap, file-backed, hybrid (from "
    "allocators with small thresholds), external, mapped and not resizable blocks, next to byte array models of the blocks and slices; after each step all of them are compared. "
    "Non-trivial: at least one slice and one resize of bytes happened. Distinct by the sequence of operations.";
std::uint64_t num_cases(bool thorough) { return thorough ? 300000 : 25000; }

namespace {

class Fixed_block final : public Mutable_memory_block {
public:
    explicit Fixed_block(std::size_t n) : data_(n) {}
    void resize(size_type) override { throw Not_supported_error{"fixed"}; }
    pointer data() noexcept override { return data_.data(); }
    const_pointer data() const noexcept override { return data_.data(); }
    size_type size() const noexcept override { return data_.size(); }
    bool resizable() const noexcept override { return false; }

private:
    std::vector<std::byte> data_;
};

struct Block {
    std::string kind;
    Intrusive_ptr<Memory_block> block;
    Intrusive_ptr<Mutable_memory_block> mut;
    std::shared_ptr<Bytes> model;                 // shared with the slices
    std::shared_ptr<std::vector<std::byte>> mem;  // of an external block
};

struct Slice {
    Memory_slice slice;
    std::shared_ptr<Bytes> model;
    std::shared_ptr<std::vector<std::byte>> mem;
    std::size_t b{}, e{};
    Bytes want() const { return model->substr(b, e - b); }
};

void check_slice(const Slice &s, const char *when)
{
    CHECK(s.slice.size() == s.e - s.b, "slice-size", "{}: the slice [{}, {}) has a size of {}", when, s.b, s.e, s.slice.size());
    CHECK(s.slice.empty() == (s.b == s.e), "slice-empty", "{}: empty() of the slice [{}, {})", when, s.b, s.e);
    CHECK(slice_bytes(s.slice) == s.want(), "slice-bytes", "{}: the slice [{}, {}) holds {} instead of {}", when, s.b, s.e, quote(slice_bytes(s.slice), 100), quote(s.want(), 100));
    Memory_span sp{s.slice};
    CHECK(sp.size() == s.slice.size() && (sp.empty() || sp.data() == s.slice.data()), "span", "the span of a slice differs");
    CHECK(static_cast<std::size_t>(s.slice.end() - s.slice.begin()) == s.slice.size() && s.slice.cend() - s.slice.cbegin() == s.slice.end() - s.slice.begin(), "iterators", "the iterators do not match the size");
}

std::size_t draw_size(Rng &r) { return r.chance(0.15) ? 0 : r.chance(0.1) ? r.in(4000, 20000) : r.chance(0.05) ? r.in(1, 5) * 4096 : r.below(300); }

}  // namespace

// Offsets and sizes that do not fit into 32 bits.
static void huge(Case &c)
{
    Rng &r = c.rng;
    std::string path = c.scratch + "/huge";
    std::vector<std::size_t> marks{0, 0x7ffffffcU, 0xfffffff8U, 0x100000010U, 0x123456789U};
    std::size_t size = 0x140000000U + r.below(100);
    marks.push_back(size - 8);
    std::vector<std::pair<std::size_t, Bytes>> pieces;
    for (auto m : marks) pieces.emplace_back(m, fmt::format("<{:06}>", m % 1000000));
    bool mapped = c.index % 2 == 0;
    c.describe(fmt::format("{} block of {} bytes", mapped ? "mapped" : "file-backed", size));
    Intrusive_ptr<Memory_block> block;
    Intrusive_ptr<Mutable_memory_block> mut;
    if (mapped) {
        if (!write_sparse_file(path, size, pieces)) {
            c.count("huge files not possible");
            return;
        }
        block = make_intrusive<File_mapped_memory_block>(path);
        ::unlink(path.c_str());
    }
    else {
        try {
            mut = File_backed_memory_allocator{1000}.allocate(0x100000100U);
            mut->resize(size);
        }
        catch (const std::system_error &) {
            c.count("huge files not possible");
            return;
        }
        for (auto &x : pieces) std::memcpy(mut->data() + x.first, x.second.data(), x.second.size());
        block = mut;
    }
    CHECK(block->size() == size && static_cast<std::size_t>(block->end() - block->begin()) == size, "block-size", "the size is {} instead of {}", block->size(), size);
    Memory_slice all{block};
    CHECK(all.size() == size, "slice-size", "the slice has {} instead of {} bytes", all.size(), size);
    auto get = [](const Memory_slice &s) { return slice_bytes(s); };
    for (int i = 0; i < 40; i++) {
        auto &x = r.pick(pieces);
        std::size_t from = r.below(x.first + 1);
        CHECK(get(all.subslice(x.first, 8)) == x.second, "slice-bytes", "the slice at {} differs", x.first);
        CHECK(get(all.subslice(from).subslice(x.first - from, 8)) == x.second, "slice-bytes", "the slice at {} within that at {} differs", x.first, from);
        CHECK(get(all.first(x.first + 8).last(8)) == x.second, "slice-bytes", "the end of the first {} bytes differs", x.first + 8);
        CHECK(get(all.last(size - x.first).first(8)) == x.second, "slice-bytes", "the begin of the last {} bytes differs", size - x.first);
        CHECK(all.subslice(from).size() == size - from, "slice-size", "the slice from {} has {} bytes", from, all.subslice(from).size());
    }
    bool thrown = false;
    try {
        all.subslice(size + 1 + r.below(100));
    }
    catch (const std::exception &) {
        thrown = true;
    }
    CHECK(thrown, "out-of-range", "a slice behind the end is accepted");
    if (mut != nullptr) {
        all = {};
        mut->resize(0x123456789U + 8);
        // No address space is left at some point.
        std::vector<Intrusive_ptr<Mutable_memory_block>> many;
        bool failed = false;
        try {
            for (int i = 0; i < 40; i++) {
                many.push_back(make_intrusive<File_backed_memory_block>(std::size_t{6} << 40U));
                many.back()->data()[(std::size_t{6} << 40U) - 1] = std::byte{7};
            }
        }
        catch (const std::exception &) {
            failed = true;
        }
        CHECK(failed, "exhaustion", "{} blocks of 6 TiB each have been allocated", many.size());
        many.clear();
        for (auto &x : pieces)
            if (x.first + 8 <= mut->size()) CHECK(std::memcmp(mut->data() + x.first, x.second.data(), 8) == 0, "resize", "the bytes at {} are lost", x.first);
    }
    c.count("huge blocks");
    c.nontrivial = true;
}

// Spans are views of arrays: every part and every reinterpretation covers exactly the bytes that it should.
template<typename T>
static void spans(Case &c)
{
    Rng &r = c.rng;
    std::vector<T> v(r.below(40));
    for (auto &x : v) x = static_cast<T>(r.next());
    std::vector<T> model = v;
    std::size_t lo = 0, n = v.size();
    std::string ops = fmt::format("spans of {} elements of {} bytes: ", n, sizeof(T));
    stdx::span<T> s = r.chance(0.5) ? stdx::span<T>{v} : r.chance(0.5) ? make_span(v) : stdx::span<T>{v.data(), v.data() + n};
    auto same = [&](const void *data, std::size_t size, std::size_t want, const char *what) {
        CHECK(size == want, "span-size", "{}: {} has {} instead of {} elements or bytes", ops, what, size, want);
        CHECK(data == static_cast<const void *>(v.data() + lo), "span-data", "{}: {} starts elsewhere", ops, what);
    };
    for (std::size_t k = 0; k < 12; k++) {
        std::size_t a = r.below(n + 1), m = r.below(n - a + 1);
        switch (r.below(4)) {
        case 0:
            ops += fmt::format("subspan {}; ", a);
            s = s.subspan(a);
            lo += a;
            n -= a;
            break;
        case 1:
            ops += fmt::format("subspan {} {}; ", a, m);
            s = s.subspan(a, m);
            lo += a;
            n = m;
            break;
        case 2:
            ops += fmt::format("first {}; ", a);
            s = s.first(a);
            n = a;
            break;
        default:
            ops += fmt::format("last {}; ", a);
            s = s.last(a);
            lo += n - a;
            n = a;
        }
        c.describe(ops);
        same(s.data(), s.size(), n, "the span");
        CHECK(s.empty() == (n == 0) && s.size_bytes() == n * sizeof(T), "span-size", "{}: empty() is {} and size_bytes() {}", ops, s.empty(), s.size_bytes());
        CHECK(s.end() - s.begin() == static_cast<std::ptrdiff_t>(n) && s.cend() - s.cbegin() == static_cast<std::ptrdiff_t>(n), "span-size", "{}: the iterators are {} apart", ops, s.end() - s.begin());
        CHECK(std::equal(s.begin(), s.end(), model.begin() + static_cast<std::ptrdiff_t>(lo)), "span-elements", "{}: wrong elements", ops);
        stdx::span<const T> k1 = s;
        auto b = stdx::as_bytes(k1);
        auto w = stdx::as_writable_bytes(s);
        same(k1.data(), k1.size(), n, "the constant span");
        same(b.data(), b.size(), n * sizeof(T), "as_bytes");
        same(w.data(), w.size(), n * sizeof(T), "as_writable_bytes");
        auto back = as_span<const T>(b);
        same(back.data(), back.size(), n, "as_span of the bytes");
        if (n != 0) {
            auto less = as_span<const T>(b.first(n * sizeof(T) - 1));
            CHECK(less.size() == (n * sizeof(T) - 1) / sizeof(T), "span-size", "{}: an incomplete element counts", ops);
            std::size_t i = r.below(n);
            auto x = static_cast<T>(r.next());
            if (r.chance(0.5))
                s[i] = x;
            else
                std::memcpy(w.data() + i * sizeof(T), &x, sizeof(T));
            model[lo + i] = x;
            CHECK(v == model && back[i] == x, "span-write", "{}: a write of element {} has another effect", ops, i);
        }
        c.count("span operations");
    }
    stdx::span<T> none{};
    CHECK(none.empty() && none.size() == 0 && none.data() == nullptr, "span-size", "a default span is not empty");
    c.nontrivial = v.size() > 1;
    c.sig = ops + std::to_string(v.empty() ? 0 : static_cast<std::uint64_t>(v[0]));
}

void run_case(Case &c)
{
    if (c.index < 2) return huge(c);
    if (c.index % 50 == 7) return c.index % 3 == 0 ? spans<std::uint8_t>(c) : c.index % 3 == 1 ? spans<std::uint32_t>(c) : spans<std::uint64_t>(c);
    Rng &r = c.rng;
    std::vector<Block> blocks;
    std::vector<Slice> slices;
    std::string ops;
    std::size_t threshold = r.chance(0.2) ? 0 : r.chance(0.5) ? r.in(1, 100) : r.in(1, 10000);
    File_backed_memory_allocator fb{threshold};
    Heap_memory_allocator heap;
    bool custom = r.chance(0.5);
    if (custom) set_memory_allocator(std::make_unique<File_backed_memory_allocator>(threshold));
    struct Restore {
        ~Restore() { set_memory_allocator(std::make_unique<File_backed_memory_allocator>()); }
    } restore;
    std::size_t steps = r.in(3, 40), nslices = 0, nresizes = 0;
    auto fill = [&](Block &b, std::size_t from) {
        for (std::size_t i = from; i < b.model->size(); i++) {
            (*b.model)[i] = static_cast<char>(r.next());
            b.mut->data()[i] = static_cast<std::byte>((*b.model)[i]);
        }
    };
    auto check_block = [&](const Block &b, const char *when) {
        CHECK(b.block->size() == b.model->size(), "block-size", "{} {}: the size is {} instead of {}", b.kind, when, b.block->size(), b.model->size());
        Bytes got(b.model->size(), '\0');
        if (!got.empty()) std::memcpy(got.data(), b.block->data(), got.size());
        CHECK(got == *b.model, "block-bytes", "{} {}: the content is {} instead of {}", b.kind, when, quote(got, 100), quote(*b.model, 100));
        CHECK(static_cast<std::size_t>(b.block->end() - b.block->begin()) == b.model->size(), "block-iterators", "{}: the iterators do not match the size", b.kind);
    };
    auto add = [&] {
        Block b;
        std::size_t n = draw_size(r);
        unsigned k = static_cast<unsigned>(r.below(8));
        b.model = std::make_shared<Bytes>(n, '\0');
        switch (k) {
        case 0:
            b.kind = "heap";
            b.mut = make_intrusive<Heap_memory_block>(n);
            break;
        case 1:
            b.kind = "file-backed";
            b.mut = make_intrusive<File_backed_memory_block>(n);
            break;
        case 2:
            b.kind = "hybrid";
            b.mut = fb.allocate(n);
            break;
        case 3:
            b.kind = "heap-allocator";
            b.mut = heap.allocate(n);
            break;
        case 4:
            b.kind = "default-allocator";
            b.mut = memory_allocator().allocate(n);
            break;
        case 5:
            b.kind = "fixed";
            b.mut = make_intrusive<Fixed_block>(n);
            break;
        case 6: {
            b.kind = "mapped";
            for (auto &x : *b.model) x = static_cast<char>(r.next());
            std::string path = fmt::format("{}/m{}", c.scratch, blocks.size());
            write_file(path, *b.model);
            b.block = make_intrusive<File_mapped_memory_block>(path);
            ::unlink(path.c_str());
            break;
        }
        default:
            b.kind = "external";
            b.mem = std::make_shared<std::vector<std::byte>>(n);
            for (std::size_t i = 0; i < n; i++) {
                (*b.model)[i] = static_cast<char>(r.next());
                (*b.mem)[i] = static_cast<std::byte>((*b.model)[i]);
            }
            b.block = make_intrusive<External_memory_block>(b.mem->data(), n);
            break;
        }
        if (b.mut) {
            CHECK(b.mut->size() == n, "block-size", "{}: allocating {} bytes gives {}", b.kind, n, b.mut->size());
            b.block = b.mut;
            fill(b, 0);
        }
        ops += fmt::format("new {} {}; ", b.kind, n);
        c.count("allocations");
        blocks.push_back(std::move(b));
    };
    add();
    for (std::size_t step = 0; step < steps; step++) {
        unsigned op = static_cast<unsigned>(r.below(12));
        c.describe(fmt::format("threshold={} default-allocator={}: {}", threshold, custom, ops));
        if (blocks.empty() || op == 0) {
            add();
            continue;
        }
        Block &b = blocks[r.below(blocks.size())];
        std::size_t n = b.model->size();
        if (op <= 3 && b.mut) {
            // Resizing moves the data; slices of it must be gone.
            slices.erase(std::remove_if(slices.begin(), slices.end(), [&](const Slice &s) { return s.model == b.model; }), slices.end());
            std::size_t m = r.chance(0.2) ? n : r.chance(0.2) && n != 0 ? r.below(n) : draw_size(r);
            bool util = r.chance(0.4) || !b.mut->resizable();
            if (b.kind == "file-backed" && r.chance(0.15)) {
                m = std::size_t{1} << 62U;
                ops += "resize to 2^62; ";
                bool thrown = false;
                try {
                    b.mut->resize(m);
                }
                catch (const std::exception &) {
                    thrown = true;
                }
                CHECK(thrown, "no-error", "a resize to 2^62 bytes succeeds");
                check_block(b, "after a failed resize");
                c.count("failed resizes");
                continue;
            }
            ops += fmt::format("{}resize {} from {} to {}; ", util ? "util-" : "", b.kind, n, m);
            c.describe(fmt::format("threshold={} default-allocator={}: {}", threshold, custom, ops));
            if (util) {
                auto old = b.mut;
                bool keep = !b.mut->resizable();
                b.mut = resize_memory_block(b.mut, m);
                CHECK(b.mut != nullptr, "resize", "resize_memory_block returns nothing");
                if (keep) {
                    CHECK(old->size() == n, "resize", "the block that cannot be resized has changed");
                    b.kind = "default-allocator";
                }
            }
            else
                b.mut->resize(m);
            b.block = b.mut;
            b.model->resize(m);
            std::size_t common = std::min(n, m);
            CHECK(b.mut->size() == m, "block-size", "{}: a resize to {} bytes gives {}", b.kind, m, b.mut->size());
            CHECK(common == 0 || std::memcmp(b.mut->data(), b.model->data(), common) == 0, "resize-prefix", "{}: a resize from {} to {} bytes has changed the common prefix", b.kind, n, m);
            fill(b, common);
            nresizes += common != 0;
            c.count("resizes");
        }
        else if (op == 4 && b.mut && n != 0) {
            std::size_t at = r.below(n), len = r.in(1, n - at);
            ops += fmt::format("write [{}, {}); ", at, at + len);
            for (std::size_t i = at; i < at + len; i++) {
                (*b.model)[i] = static_cast<char>(r.next());
                b.mut->data()[i] = static_cast<std::byte>((*b.model)[i]);
            }
        }
        else if (op == 5) {
            // The slices keep the block alive.
            ops += "drop block; ";
            blocks.erase(blocks.begin() + (&b - blocks.data()));
        }
        else if (op == 6 && !slices.empty()) {
            std::size_t i = r.below(slices.size());
            ops += "drop slice; ";
            if (r.chance(0.5))
                slices.erase(slices.begin() + static_cast<std::ptrdiff_t>(i));
            else {
                Slice s = slices[i];
                Slice moved = std::move(slices[i]);
                slices.erase(slices.begin() + static_cast<std::ptrdiff_t>(i));
                check_slice(s, "after a copy");
                check_slice(moved, "after a move");
            }
        }
        else if (op == 7) {
            Slice s;
            s.slice = Memory_slice{b.block};
            s.model = b.model;
            s.mem = b.mem;
            s.e = n;
            ops += fmt::format("slice of {}; ", b.kind);
            check_slice(s, "a complete slice");
            slices.push_back(s);
        }
        else {
            Slice s;
            if (slices.empty() || r.chance(0.3)) {
                s.slice = Memory_slice{b.block};
                s.model = b.model;
                s.mem = b.mem;
                s.e = n;
            }
            else
                s = slices[r.below(slices.size())];
            std::size_t len = s.e - s.b;
            bool bad = r.chance(0.2);
            std::size_t a = r.below(len + 1), z = r.in(a, len);
            if (bad) {
                switch (r.below(3)) {
                case 0:
                    a = len + r.in(1, 1000);
                    z = a + r.below(3);
                    break;
                case 1:
                    z = len + r.in(1, 100000);
                    break;
                default:
                    z = len + 1;
                    break;
                }
            }
            unsigned form = static_cast<unsigned>(r.below(8));
            bool rvalue = r.chance(0.4);
            ops += fmt::format("subslice form {} [{}, {}) of {}{}; ", form, a, z, len, rvalue ? " moved" : "");
            c.describe(fmt::format("threshold={} default-allocator={}: {}", threshold, custom, ops));
            Memory_slice src = s.slice;
            const auto *p = s.slice.begin();
            auto off = [](std::size_t x) { return static_cast<std::ptrdiff_t>(x); };
            if (p == nullptr && form >= 4) form -= 4;  // there is no iterator to count from
            Memory_slice out;
            bool thrown = false;
            std::size_t eb = a, ee = z;  // expected, relative
            bool expect_bad = bad;
            try {
                switch (form) {
                case 0:
                    ee = len;
                    expect_bad = a > len;
                    if (rvalue)
                        out = std::move(src).subslice(a);
                    else
                        out = src.subslice(a);
                    break;
                case 1:
                    if (rvalue)
                        out = std::move(src).subslice(a, z - a);
                    else
                        out = src.subslice(a, z - a);
                    break;
                case 2:
                    eb = 0;
                    if (rvalue)
                        out = std::move(src).first(z);
                    else
                        out = src.first(z);
                    break;
                case 3:
                    eb = len - std::min(z, len);
                    ee = len;
                    if (rvalue)
                        out = std::move(src).last(z);
                    else
                        out = src.last(z);
                    break;
                case 4:
                    ee = len;
                    expect_bad = a > len;
                    if (rvalue)
                        out = std::move(src).subslice(p + off(a));
                    else
                        out = src.subslice(p + off(a));
                    break;
                case 5:
                    if (r.chance(0.1) && z > a) {
                        std::swap(a, z);
                        expect_bad = true;
                    }
                    if (rvalue)
                        out = std::move(src).subslice(p + off(a), p + off(z));
                    else
                        out = src.subslice(p + off(a), p + off(z));
                    break;
                case 6:
                    eb = 0;
                    if (rvalue)
                        out = std::move(src).first(p + off(z));
                    else
                        out = src.first(p + off(z));
                    break;
                default:
                    ee = len;
                    expect_bad = a > len;
                    if (rvalue)
                        out = std::move(src).last(p + off(a));
                    else
                        out = src.last(p + off(a));
                    break;
                }
            }
            catch (const std::exception &e) {
                thrown = true;
                CHECK(expect_bad, "unexpected-error", "form {} [{}, {}) of {} bytes: {}", form, a, z, len, e.what());
            }
            CHECK(thrown == expect_bad, "no-error", "form {}: the range [{}, {}) of {} bytes has been accepted", form, a, z, len);
            if (r.chance(0.05)) {
                std::size_t huge = r.chance(0.5) ? ~std::size_t{0} - r.below(3) : (std::size_t{1} << 63U) + r.below(3);
                int refused = 0;
                for (int k = 0; k < 5; k++) try {
                        Memory_slice x = k == 0 ? s.slice.subslice(huge) : k == 1 ? s.slice.subslice(std::min<std::size_t>(1, len), huge) : k == 2 ? s.slice.first(huge) : k == 3 ? s.slice.last(huge) : s.slice.subslice(huge, ~huge + 1);
                    }
                    catch (const std::exception &) {
                        refused++;
                    }
                CHECK(refused == 5, "no-error", "a range of {} bytes in a slice of {} bytes has been accepted", huge, len);
            }
            nslices += len != 0;
            c.count(thrown ? "rejected ranges" : "slices");
            if (!rvalue || thrown) {
                Slice same = s;
                same.slice = src;
                check_slice(same, "after slicing it");
            }
            if (!thrown) {
                s.e = s.b + ee;
                s.b += eb;
                s.slice = out;
                src = {};
                check_slice(s, "new");
                slices.push_back(s);
            }
        }
        for (auto &x : blocks) check_block(x, "after a step");
        for (auto &x : slices) check_slice(x, "after a step");
        if (slices.size() > 12) slices.erase(slices.begin(), slices.begin() + 4);
    }
    if (r.chance(0.05)) {
        // A failed allocation leaves nothing behind.
        bool thrown = false;
        try {
            auto b = make_intrusive<File_backed_memory_block>(std::size_t{1} << 62U);
        }
        catch (const std::exception &) {
            thrown = true;
        }
        CHECK(thrown, "no-error", "an allocation of 2^62 bytes succeeds");
    }
    c.nontrivial = nslices != 0 && nresizes != 0;
    c.sig = fmt::format("{}", hash_str(ops));
}
}  // namespace V
