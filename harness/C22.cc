#include <dirent.h>
#include <fnmatch.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <filesystem>

#include "stores.h"
namespace V {
using namespace mlio;
namespace fs = std::filesystem;
const char *const property_id = "C22";
const char *const rule =
    "Each case builds a directory tree (nested and empty directories, hidden files, symbolic links to files, dangling links, FIFOs, names with numbers, spaces and special characters) in two copies "
    "whose entries are created in different orders, lists one or more paths of it with drawn pattern, predicate, mapping and compression options, and compares the ids, their order, and the content "
    "read from every store with a reference walk; missing paths, unreadable directories and throwing predicates have to raise. Non-trivial: at least two files are listed. Distinct by tree and options.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 6000; }

namespace {

// Natural order of names without leading zeros and spaces.
int natural(const std::string &a, const std::string &b)
{
    std::size_t i = 0, j = 0;
    auto digit = [](char c) { return c >= '0' && c <= '9'; };
    while (i < a.size() && j < b.size()) {
        if (digit(a[i]) && digit(b[j])) {
            std::size_t x = i, y = j;
            while (x < a.size() && digit(a[x])) x++;
            while (y < b.size() && digit(b[y])) y++;
            if (x - i != y - j) return x - i < y - j ? -1 : 1;
            int c = a.compare(i, x - i, b, j, y - j);
            if (c != 0) return c;
            i = x;
            j = y;
        }
        else {
            if (a[i] != b[j]) return a[i] < b[j] ? -1 : 1;
            i++;
            j++;
        }
    }
    return i < a.size() ? 1 : j < b.size() ? -1 : 0;
}

struct Node {
    std::string path;  // relative
    char kind{};       // d, f, l (link to a file), h (one more name of the target), x (dangling link), p (FIFO)
    Bytes content;
};

std::string draw_name(Rng &r, bool ties)
{
    static const char *const words[] = {"a", "b", "part", "data", "x", "ab"};
    std::string s = words[r.below(6)];
    if (r.chance(0.1)) s = "." + s;
    if (ties) {
        static const char *const sp[] = {" ", "  ", ""};
        for (int i = 0; i < 2; i++) s += std::string(sp[r.below(3)]) + words[r.below(2)];
        if (r.chance(0.3)) s += fmt::format("{:0{}}", r.below(12), r.in(1, 4));
        return s;
    }
    if (r.chance(0.7)) s += r.chance(0.5) ? "-" : r.chance(0.5) ? "_" : "";
    if (r.chance(0.8)) s += fmt::format("{}", r.chance(0.8) ? r.in(1, 30) : r.in(1, 1000000000000));
    if (r.chance(0.3)) s += fmt::format(".{}", r.in(1, 20));
    static const char *const ext[] = {".csv", ".txt", ".gz", "", ".CSV", ".a[b]", ".q*"};
    s += ext[r.below(7)];
    return s;
}

std::vector<std::string> ids(const std::vector<Intrusive_ptr<Data_store>> &v)
{
    std::vector<std::string> r;
    for (auto &s : v) r.push_back(s->id());
    return r;
}

std::vector<std::string> raw_entries(const std::string &d)
{
    std::vector<std::string> r;
    if (DIR *x = opendir(d.c_str())) {
        while (dirent *e = readdir(x)) r.push_back(e->d_name);
        closedir(x);
    }
    return r;
}

struct Tree {
    std::vector<Node> nodes;
    std::vector<std::string> dirs{""};
};

Tree draw_tree(Rng &r, bool ties)
{
    Tree t;
    std::set<std::string> used;
    std::size_t n = r.chance(0.1) ? r.below(2) : r.in(1, 25);
    for (std::size_t i = 0; i < n; i++) {
        const std::string dir = r.pick(t.dirs);
        std::string name = draw_name(r, ties);
        std::string p = dir.empty() ? name : dir + "/" + name;
        if (!used.insert(p).second) continue;
        Node x;
        x.path = p;
        unsigned k = static_cast<unsigned>(r.below(20));
        x.kind = k < 4 ? 'd' : k == 4 ? 'l' : k == 5 ? 'x' : k == 6 ? 'p' : k == 7 ? 'h' : 'f';
        if (x.kind == 'd') t.dirs.push_back(p);
        x.content = "content of " + p;
        if (r.chance(0.1)) x.content.clear();
        t.nodes.push_back(x);
    }
    return t;
}

bool gz_name(const std::string &p) { return p.size() > 3 && p.substr(p.size() - 3) == ".gz"; }

void build(const Tree &t, const std::string &root, Rng &r, const std::string &target)
{
    fs::create_directories(root);
    std::vector<const Node *> v;
    for (auto &n : t.nodes) {
        if (n.kind == 'd') fs::create_directory(root + "/" + n.path);
        v.push_back(&n);
    }
    for (std::size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
    for (auto *n : v) {
        std::string p = root + "/" + n->path;
        if (n->kind == 'f') write_file(p, gz_name(p) ? deflate_bytes(n->content) : n->content);
        if (n->kind == 'l') fs::create_symlink(target, p);
        if (n->kind == 'h') fs::create_hard_link(target, p);
        if (n->kind == 'x') fs::create_symlink(root + "/no such file", p);
        if (n->kind == 'p' && mkfifo(p.c_str(), 0600) != 0) throw std::runtime_error{"mkfifo"};
    }
}

// The files below a directory in their order.
void walk(const Tree &t, const std::string &dir, std::vector<const Node *> &out)
{
    std::vector<const Node *> v;
    for (auto &n : t.nodes) {
        std::size_t p = n.path.rfind('/');
        if ((p == std::string::npos ? "" : n.path.substr(0, p)) == dir) v.push_back(&n);
    }
    std::sort(v.begin(), v.end(), [](const Node *a, const Node *b) { return natural(fs::path(a->path).filename(), fs::path(b->path).filename()) < 0; });
    for (auto *n : v) {
        if (n->kind == 'f' || n->kind == 'l' || n->kind == 'h') out.push_back(n);
        if (n->kind == 'd') walk(t, n->path, out);
    }
}

template<typename F>
bool throws(F &&f)
{
    try {
        f();
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &) {
        return true;
    }
    return false;
}

void errors(Case &c, const std::string &base)
{
    Rng &r = c.rng;
    fs::create_directories(base + "/e/in");
    write_file(base + "/e/f1", "x");
    write_file(base + "/e/in/f2", "x");
    std::string good = base + "/e", missing = base + "/missing" + (r.chance(0.5) ? "/deeper" : "");
    c.nontrivial = false;
    switch (r.below(5)) {
    case 0: {
        c.describe("missing path");
        std::vector<std::string> p{missing};
        if (r.chance(0.5)) p.insert(p.begin(), good);
        if (r.chance(0.5)) p.push_back(good);
        CHECK(throws([&] { list_files(p, {}); }), "missing-path", "a missing path raises no exception");
        CHECK(throws([&] { list_files(missing, r.chance(0.5) ? "*" : ""); }), "missing-path", "a missing path raises no exception");
        c.count("missing paths");
        break;
    }
    case 1: {
        c.describe("throwing predicate");
        File_list_options::Predicate_callback f = [](const std::string &) -> bool { throw std::runtime_error{"predicate"}; };
        File_list_options o;
        o.predicate = &f;
        std::vector<std::string> p{good};
        CHECK(throws([&] { list_files(p, o); }), "predicate", "the exception of the predicate is lost");
        c.count("throwing predicates");
        break;
    }
    case 2: {
        c.describe("unreadable directory");
        fs::create_directory(good + "/secret");
        write_file(good + "/secret/f", "x");
        chmod((good + "/secret").c_str(), 0);
        // The scratch directories are private.
        for (fs::path p = c.scratch; p.string().find("verif-") != std::string::npos; p = p.parent_path()) chmod(p.c_str(), 0711);
        bool thrown = false, denied = false;
        if (seteuid(65534) == 0) {
            auto readable = [](const std::string &p) {
                DIR *d = opendir(p.c_str());
                if (d != nullptr) closedir(d);
                return d != nullptr;
            };
            denied = readable(good) && !readable(good + "/secret");
            if (denied) thrown = throws([&] { list_files(good); });
            if (seteuid(0) != 0) throw std::runtime_error{"seteuid"};
        }
        chmod((good + "/secret").c_str(), 0700);
        if (denied) {
            CHECK(thrown, "unreadable", "an unreadable directory raises no exception");
            c.count("unreadable directories");
        }
        break;
    }
    case 3: {
        c.describe("link cycle");
        fs::create_directory_symlink(good, good + "/in/loop");
        auto v = ids(list_files(good));
        std::set<std::string> s(v.begin(), v.end());
        CHECK(s.count(good + "/f1") == 1 && s.count(good + "/in/f2") == 1, "cycle", "files are missing next to a link cycle");
        c.count("link cycles");
        break;
    }
    default: {
        c.describe("linked directory");
        fs::create_directory_symlink(good + "/in", base + "/linked");
        auto v = ids(list_files(base + "/linked"));
        CHECK(v == std::vector<std::string>{base + "/linked/f2"}, "linked", "the files below a linked directory: {}", fmt::format("{}", fmt::join(v, " ")));
        c.count("linked directories");
        break;
    }
    }
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    std::string base = c.scratch + "/t";
    fs::remove_all(base);
    fs::create_directories(base);
    if (r.chance(0.08)) {
        c.sig = fmt::format("{}", c.index);
        return errors(c, base);
    }
    bool ties = r.chance(0.2);
    Tree t = draw_tree(r, ties);
    write_file(base + "/target", "the target");
    std::string r1 = base + "/one/tree", r2 = base + "/two/tree";
    build(t, r1, r, base + "/target");
    build(t, r2, r, base + "/target");
    File_list_options o;
    std::string pattern;
    if (r.chance(0.5)) pattern = r.pick<std::string>({"*", "*.csv", "*a*", "*/part*", "*[0-9].txt", "*.gz", "nothing", "*.a\\[b\\]", "*/x?", "*tree/a*"});
    o.pattern = pattern;
    o.memory_map = r.chance(0.5);
    o.compression = r.pick({Compression::infer, Compression::infer, Compression::none, Compression::gzip});
    std::vector<std::string> asked;
    unsigned salt = static_cast<unsigned>(r.below(1000));
    bool pred = r.chance(0.4), empty_pred = r.chance(0.1);
    File_list_options::Predicate_callback f;
    auto decide = [salt](const std::string &p) { return (hash_str(p.substr(p.rfind('/') + 1)) + salt) % 3 != 0; };
    if (pred) f = [&](const std::string &p) {
            asked.push_back(p);
            return decide(p);
        };
    if (pred || empty_pred) o.predicate = &f;
    // The paths to list
    auto paths = [&](const std::string &root) {
        std::vector<std::string> p{root};
        return p;
    };
    std::vector<std::string> sub;  // relative directories or files, in natural order of the full path
    if (!ties && r.chance(0.4)) {
        std::size_t n = r.in(1, 3);
        for (std::size_t i = 0; i < n; i++) {
            if (r.chance(0.5) || t.nodes.empty())
                sub.push_back(r.pick(t.dirs));
            else {
                auto &x = r.pick(t.nodes);
                if (x.kind != 'x' && x.kind != 'p') sub.push_back(x.path);
            }
        }
    }
    if (sub.empty()) sub.push_back("");
    bool slash = sub.size() == 1 && sub[0].empty() && r.chance(0.2);
    c.describe(fmt::format("ties={} pattern='{}' map={} compression={} predicate={} paths=({}) tree=({})", ties, pattern, o.memory_map, static_cast<int>(o.compression), pred, fmt::join(sub, " "), [&] {
        std::string s;
        for (auto &n : t.nodes) s += fmt::format("{}:{} ", n.kind, n.path);
        return s;
    }()));
    auto full = [&](const std::string &root, const std::string &rel) { return rel.empty() ? root + (slash ? "/" : "") : root + "/" + rel; };
    auto list = [&](const std::string &root) {
        std::vector<std::string> p;
        for (auto &x : sub) p.push_back(full(root, x));
        if (p.size() == 1 && !pred && !empty_pred && o.memory_map && o.compression == Compression::infer && r.chance(0.5)) return list_files(p[0], pattern);
        return list_files(p, o);
    };
    (void)paths;
    auto accept = [&](const std::string &p) {
        if (!pattern.empty() && fnmatch(pattern.c_str(), p.c_str(), 0) != 0) return false;
        return !pred || decide(p);
    };
    auto got1 = list(r1);
    auto asked1 = asked;
    asked.clear();
    auto got2 = list(r2);
    auto i1 = ids(got1), i2 = ids(got2);
    auto rel = [](std::vector<std::string> v, const std::string &root) {
        for (auto &x : v) {
            CHECK(x.compare(0, root.size(), root) == 0, "foreign-path", "the store '{}' is not below '{}'", x, root);
            x = x.substr(root.size());
        }
        return v;
    };
    auto l1 = rel(i1, r1), l2 = rel(i2, r2);
    CHECK(l1 == l2, "directory-order", "the order depends on the directory entries: ({}) and ({})", fmt::format("{}", fmt::join(l1, " ")), fmt::format("{}", fmt::join(l2, " ")));
    bool differ = raw_entries(r1) != raw_entries(r2);
    c.count("trees with differing directory orders", differ);
    // The reference
    std::vector<const Node *> want;
    std::vector<std::string> want_ids;
    auto roots = sub;
    std::stable_sort(roots.begin(), roots.end(), [&](const std::string &a, const std::string &b) { return natural(full(r1, a), full(r1, b)) < 0; });
    for (auto &x : roots) {
        std::vector<const Node *> v;
        for (auto &n : t.nodes)
            if (n.path == x && n.kind != 'd') v.push_back(&n);
        if (v.empty()) walk(t, x, v);
        for (auto *n : v) {
            std::string p = slash ? r1 + "/" + n->path : full(r1, n->path);
            if (slash) p = r1 + "/" + n->path;
            if (!accept(p)) continue;
            want.push_back(n);
            want_ids.push_back(p);
        }
    }
    c.nontrivial = want.size() >= 2;
    c.count("listed files", want.size());
    if (slash) {
        // Whether the slash is repeated is not specified.
        for (auto *v : {&i1, &want_ids})
            for (auto &x : *v)
                for (std::size_t p = x.find("//"); p != std::string::npos; p = x.find("//")) x.erase(p, 1);
    }
    if (ties) {
        auto a = i1, b = want_ids;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        CHECK(a == b, "files", "listed ({}) instead of ({})", fmt::format("{}", fmt::join(a, " ")), fmt::format("{}", fmt::join(b, " ")));
    }
    else
        CHECK(i1 == want_ids, "files", "listed ({}) instead of ({})", fmt::format("{}", fmt::join(i1, " ")), fmt::format("{}", fmt::join(want_ids, " ")));
    if (pred)
        for (auto &p : asked1) CHECK(fs::exists(p), "predicate", "the predicate has been asked for '{}'", p);
    if (!ties) {
        for (std::size_t i = 0; i < got1.size(); i++) {
            const Node &n = *want[i];
            Bytes b = n.kind == 'l' || n.kind == 'h' ? "the target" : n.content, raw = n.kind == 'f' && gz_name(n.path) ? deflate_bytes(n.content) : b;
            bool inflate = o.compression == Compression::gzip || (o.compression == Compression::infer && gz_name(n.path));
            bool valid = n.kind == 'f' && gz_name(n.path);
            Bytes out;
            bool failed = throws([&] {
                auto s = got1[i]->open_read();
                if (!inflate) CHECK(s->supports_zero_copy() == o.memory_map, "memory-map", "'{}' is {}mapped", i1[i], s->supports_zero_copy() ? "" : "not ");
                for (;;) {
                    auto x = s->read(64);
                    if (x.empty()) break;
                    out += slice_bytes(x);
                }
            });
            if (inflate && !valid)
                CHECK(failed || b.empty(), "compression", "'{}' is not read with gzip compression", i1[i]);
            else
                CHECK(!failed && out == (inflate ? n.content : raw), "content", "'{}' yields {}", i1[i], failed ? "an exception" : quote(out));
        }
    }
    c.sig = fmt::format("{}", hash_str(c.description()));
}
}  // namespace V
