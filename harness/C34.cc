#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <fstream>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C34";
const char *const rule =
    "Sequences: drawn operations set the level, set, clear and re-enter handlers (recording, throwing, slow, replacing themselves, opening other stores) and open file and in-memory stores with hostile "
    "names (braces, percent signs, quotes, UTF-8); a model tells which handler must have received which message, and the returned former handler is called to identify it. Schedules: two to six threads "
    "open files while another one replaces the handler many times; each path must arrive exactly once, at a handler that was registered in between. Readers: datasets of all kinds with bad rows in stores "
    "with hostile names are read with warnings; each bad row, padded or skipped example and incomplete last batch must be named by one message with its store and number. "
    "CSV messages: rows with a bad or over-long field or with too few or too many columns; each message must tell the column and value, or the two numbers of columns. "
    "Non-trivial: at least one message was expected. Distinct by configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 60000 : 14000; }

namespace {

struct Entry {
    Log_level level;
    std::string text;
};

// What a handler has received; destroyed together with the last copy of it.
struct Sink {
    int id{};
    std::mutex mtx;
    std::vector<Entry> got;
    std::atomic_int calls{};
    std::vector<Entry> take()
    {
        std::lock_guard<std::mutex> l{mtx};
        return std::exchange(got, {});
    }
};

enum class Mode { plain, throwing, slow, replacing, nesting, num };

struct Restore {
    ~Restore()
    {
        set_log_message_handler(nullptr);
        set_log_level(Log_level::off);
    }
};

const char *const names[] = {"plain.csv", "a{0}b{1:n}.csv", "{", "}{", "%s%n%d", "it's \"quoted\"", "\xc3\xa9\xe4\xb8\xad", "tab\there", "{{}}", "x y", "back\\slash", "{0:.64}"};

std::string make_file(const std::string &dir, const std::string &name, const Bytes &content)
{
    std::string p = dir + "/" + name;
    std::ofstream f{p, std::ios::binary};
    f << content;
    f.close();
    CHECK(f.good(), "setup", "the file {} cannot be written", p);
    return p;
}

bool has(const std::string &text, const std::string &what) { return text.find(what) != std::string::npos; }

// --- sequences ----------------------------------------------------------------
void sequence(Case &c)
{
    Rng &r = c.rng;
    Restore restore;
    std::string dir = c.scratch + "/seq";
    ::mkdir(dir.c_str(), 0700);
    std::vector<std::string> paths;
    for (std::size_t i = 0, n = r.in(1, 3); i < n; i++) paths.push_back(make_file(dir, r.pick<std::string>({std::begin(names), std::end(names)}), "x\n"));
    if (r.chance(0.3)) {
        // A long name; the last part must arrive as well.
        std::string p = dir + "/";
        for (std::size_t n = r.pick<std::size_t>({60, 140, 260, 1000, 1800}); n != 0; n--) p += "./";
        paths.push_back(p + paths[0].substr(dir.size() + 1));
    }
    std::string nested = make_file(dir, "nested file", "y\n");

    std::vector<std::shared_ptr<Sink>> sinks;
    std::shared_ptr<Sink> cur;
    Mode cur_mode{};
    Log_level level = Log_level::off;
    std::shared_ptr<Sink> next_cur;  // of a handler that replaces itself
    std::atomic_bool replaced{};
    std::size_t ops = r.in(4, 16), delivered = 0, silent = 0;
    std::string trace;
    auto new_sink = [&] {
        auto s = std::make_shared<Sink>();
        s->id = static_cast<int>(sinks.size());
        sinks.push_back(s);
        return s;
    };
    auto make_handler = [&](const std::shared_ptr<Sink> &s, Mode m, const std::shared_ptr<Sink> &other) -> Log_message_handler {
        return [s, m, other, &replaced, nested](Log_level l, std::string_view t) {
            {
                std::lock_guard<std::mutex> g{s->mtx};
                s->got.push_back({l, std::string(t)});
            }
            int k = ++s->calls;
            switch (m) {
            case Mode::throwing:
                if (k % 2 == 0) throw 42;
                throw std::runtime_error{"the handler has failed"};
            case Mode::slow:
                std::this_thread::sleep_for(std::chrono::microseconds{50});
                break;
            case Mode::replacing:
                replaced = true;
                set_log_message_handler([other](Log_level l2, std::string_view t2) {
                    std::lock_guard<std::mutex> g{other->mtx};
                    other->got.push_back({l2, std::string(t2)});
                });
                break;
            case Mode::nesting:
                if (k % 2 == 1) make_intrusive<File>(nested)->open_read();
                break;
            default:
                break;
            }
        };
    };
    c.describe(fmt::format("sequence of {} operations", ops));
    set_log_message_handler(nullptr);
    set_log_level(level);
    for (std::size_t i = 0; i < ops; i++) {
        unsigned k = static_cast<unsigned>(r.below(8));
        if (k == 0) {
            level = static_cast<Log_level>(r.below(4));
            set_log_level(level);
            trace += fmt::format(" level{}", static_cast<int>(level));
        }
        else if (k <= 2 || i == 0) {
            // Another handler, or none.
            bool none = r.chance(0.15);
            std::shared_ptr<Sink> s = none ? nullptr : new_sink(), other;
            Mode m = static_cast<Mode>(r.below(static_cast<std::uint64_t>(Mode::num)));
            if (!none && m == Mode::replacing) other = new_sink();
            replaced = false;
            Log_message_handler old = none ? set_log_message_handler(r.chance(0.5) ? Log_message_handler{} : Log_message_handler{nullptr}) : set_log_message_handler(make_handler(s, m, other));
            CHECK((old != nullptr) == (cur != nullptr), "former-handler", "setting a handler has returned {}", old != nullptr ? "a handler although there was none" : "no handler although there was one");
            if (old != nullptr && cur_mode != Mode::replacing && cur_mode != Mode::nesting) {
                try {
                    old(Log_level::debug, "probe");
                }
                catch (...) {
                }
                auto got = cur->take();
                CHECK(got.size() == 1 && got[0].text == "probe", "former-handler", "the handler that was returned is not the former one");
                c.count("former handlers identified");
            }
            cur = s;
            cur_mode = m;
            next_cur = other;
            trace += none ? " none" : fmt::format(" handler{}", static_cast<int>(m));
            if (r.chance(0.5) && level == Log_level::off) {
                level = r.pick({Log_level::info, Log_level::debug});
                set_log_level(level);
            }
        }
        else {
            // A message of the level info, or a warning.
            bool warning = r.chance(0.25), memory = !warning && r.chance(0.3);
            std::string want;
            std::size_t nwarn = 0;
            if (warning) {
                Data_reader_params p;
                p.dataset = {memory_store("1\n2\n3\n")};
                p.batch_size = 2;
                p.last_example_handling = Last_example_handling::pad_warn;
                nwarn = 1;
                if (r.chance(0.3)) {
                    // MLIO has been initialized before; doing it again changes nothing.
                    const auto &before = memory_allocator();
                    mlio::initialize();
                    CHECK(&before == &memory_allocator(), "initialize", "the memory allocator has been replaced");
                    want.clear();  // whatever it says
                }
                else {
                    auto rd = make_intrusive<Text_line_reader>(p);
                    std::size_t n = 0;
                    while (rd->read_example()) n++;
                    CHECK(n == 2, "reader", "{} examples instead of 2 have been read", n);
                    want = "2";
                }
            }
            else if (memory) {
                auto s = memory_store("abc");
                want = s->id();
                s->open_read();
            }
            else {
                want = r.pick(paths);
                auto st = make_intrusive<File>(want)->open_read();
                std::array<std::byte, 8> buf{};
                CHECK(st->read(buf) == 2, "reader", "the file {} cannot be read", want);
            }
            Log_level lv = nwarn != 0 ? Log_level::warning : Log_level::info;
            bool enabled = level != Log_level::off && lv <= level;
            trace += enabled ? "!" : ".";
            for (auto &s : sinks) {
                auto got = s->take();
                std::size_t hits = 0, in_nested = 0;
                for (auto &e : got) {
                    CHECK(e.level != Log_level::off && e.level <= level, "level", "a message of the level {} arrives while the level is {}: {}", static_cast<int>(e.level), static_cast<int>(level), e.text);
                    if (e.level != lv) continue;
                    if (has(e.text, want))
                        hits++;
                    else if (has(e.text, nested))
                        in_nested++;
                }
                // The reader opens its store as well, on whatever thread.
                bool handler = cur != nullptr && s->id == cur->id;
                bool successor = next_cur != nullptr && s->id == next_cur->id;
                if (nwarn != 0 && level >= Log_level::info && cur_mode == Mode::replacing && (handler || successor)) {
                    // Which of the messages was the first one depends on the reader.
                    CHECK(hits <= 1, "count", "a warning has been delivered {} times", hits);
                    delivered += hits;
                    continue;
                }
                std::size_t exp = handler && enabled ? 1 : 0;
                CHECK(hits == exp, "count", "the message about '{}' has been delivered {} times to the handler {} ({}) instead of {}; the level is {}:{}", want, hits, s->id, handler ? "registered" : "not registered", exp, static_cast<int>(level), trace);
                if (!handler) CHECK(in_nested == 0, "count", "a message has been delivered to a handler that is not registered");
                delivered += hits;
                if (exp == 0) silent++;
            }
            if (replaced && next_cur) {
                cur = next_cur;
                next_cur = nullptr;
                cur_mode = Mode::plain;
                replaced = false;
            }
        }
    }
    // Handlers are released as soon as they are replaced.
    set_log_message_handler(nullptr);
    cur = next_cur = nullptr;
    for (auto &s : sinks) CHECK(s.use_count() == 1, "leak", "the handler {} is still referenced", s->id);
    c.count("messages of sequences", delivered);
    c.count("messages that must not arrive", silent);
    c.sig = fmt::format("{}:{}", trace, hash_str(paths[0]) % 97);
    c.nontrivial = delivered != 0;
}

// --- schedules ----------------------------------------------------------------
void schedule(Case &c)
{
    Rng &r = c.rng;
    Restore restore;
    unsigned threads = static_cast<unsigned>(r.in(2, 6));
    std::size_t per = r.in(3, 25), swaps = r.in(2, 60);
    bool throwing = r.chance(0.3), slow = r.chance(0.5), off = r.chance(0.2);
    c.describe(fmt::format("schedule threads={} messages={} swaps={} throwing={} slow={} levels={}", threads, per, swaps, throwing, slow, off));
    struct Rec {
        std::mutex mtx;
        std::vector<std::pair<std::size_t, std::string>> got;
    };
    auto rec = std::make_shared<Rec>();
    std::atomic_size_t begun{0}, done{0};
    std::vector<std::string> dirs;
    for (unsigned t = 0; t < threads; t++) {
        dirs.push_back(fmt::format("{}/T{}", c.scratch, t));
        ::mkdir(dirs.back().c_str(), 0700);
        make_file(dirs.back(), "f", "data");
    }
    auto make = [&](std::size_t g) {
        // The content of the handler must stay valid as long as it is running.
        auto own = std::make_unique<std::string>(fmt::format("generation {} of the handlers, long enough for the heap", g));
        return Log_message_handler{[rec, g, own = std::shared_ptr<std::string>(std::move(own)), throwing, slow](Log_level, std::string_view m) {
            if (slow && m.size() % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds{100});
            if (own->size() < 10) std::abort();
            {
                std::lock_guard<std::mutex> l{rec->mtx};
                rec->got.emplace_back(g, std::string(m));
            }
            if (throwing && g % 2 == 1) throw std::runtime_error{*own};
        }};
    };
    set_log_level(Log_level::info);
    set_log_message_handler(make(0));
    struct Sent {
        std::string path;
        std::size_t from, to;
    };
    std::vector<std::vector<Sent>> sent(threads);
    std::atomic_bool bad{};
    std::vector<std::thread> v;
    for (unsigned t = 0; t < threads; t++)
        v.emplace_back([&, t] {
            std::string p = dirs[t] + "/";
            for (std::size_t i = 0; i < per; i++) {
                p += "./";
                Sent s{p + "f", done.load(), 0};
                try {
                    auto st = make_intrusive<File>(s.path)->open_read();
                    std::array<std::byte, 8> buf{};
                    if (st->read(buf) != 4) bad = true;
                }
                catch (...) {
                    bad = true;
                }
                s.to = begun.load();
                sent[t].push_back(std::move(s));
            }
        });
    std::uint64_t seed = r.next();
    std::thread swapper{[&] {
        Rng q{seed};
        for (std::size_t g = 1; g <= swaps; g++) {
            if (off && q.chance(0.3)) set_log_level(q.pick({Log_level::info, Log_level::debug}));
            begun = g;
            set_log_message_handler(make(g));
            done = g;
            if (q.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds{q.below(200)});
        }
    }};
    for (auto &t : v) t.join();
    swapper.join();
    set_log_message_handler(nullptr);
    CHECK(!bad, "reader", "a file could not be read while the handler was replaced");
    CHECK(rec.use_count() == 1, "leak", "there are still handlers after the last one has been removed");
    std::map<std::string, std::size_t> where;
    std::set<std::size_t> gens;
    for (auto &x : rec->got) {
        auto b = x.second.find(c.scratch), e = x.second.rfind("/f");
        CHECK(b != std::string::npos && e != std::string::npos && e > b, "text", "the message '{}' does not name a file", x.second);
        auto p = x.second.substr(b, e + 2 - b);
        CHECK(where.emplace(p, x.first).second, "count", "the message about '{}' has been delivered twice", p);
        gens.insert(x.first);
    }
    std::size_t total = 0;
    for (auto &t : sent)
        for (auto &s : t) {
            total++;
            auto it = where.find(s.path);
            CHECK(it != where.end(), "count", "the message about '{}' is lost", s.path);
            CHECK(it->second >= s.from && it->second <= s.to, "handler", "the message about '{}' went to the handler {} although the handlers {} to {} were registered", s.path, it->second, s.from, s.to);
        }
    CHECK(where.size() == total, "count", "{} messages instead of {} have been delivered", where.size(), total);
    c.count("messages of schedules", total);
    c.count("handlers that received messages", gens.size());
    std::uint64_t h = 0;
    for (auto &x : rec->got) h = hash_str(fmt::format("{} {}", x.first, x.second.size()), h);
    c.observe("distinct interleavings of messages and handlers", h);
    c.sig = fmt::format("{}", h);
}

// --- readers ------------------------------------------------------------------
std::vector<std::uint64_t> integers(const std::string &s)
{
    std::vector<std::uint64_t> v;
    for (std::size_t i = 0; i < s.size();) {
        if (std::isdigit(static_cast<unsigned char>(s[i])) == 0) {
            i++;
            continue;
        }
        std::uint64_t x = 0;
        for (; i < s.size() && std::isdigit(static_cast<unsigned char>(s[i])) != 0; i++) x = x * 10 + static_cast<std::uint64_t>(s[i] - '0');
        v.push_back(x);
    }
    return v;
}

bool names_number(const std::string &s, std::uint64_t n)
{
    auto v = integers(s);
    return std::find(v.begin(), v.end(), n) != v.end();
}

void readers(Case &c)
{
    Rng &r = c.rng;
    Restore restore;
    Gen g;
    g.kind = r.pick({Kind::csv, Kind::csv, Kind::proto, Kind::image_rec, Kind::image_file});
    g.num_rows = g.kind == Kind::image_rec || g.kind == Kind::image_file ? r.in(1, 15) : r.in(1, 40);
    g.num_stores = r.in(1, 3);
    g.bad = r.pick({0.1, 0.3, 0.6});
    Dataset d = make_dataset(r, g);
    if (d.kind == Kind::csv && d.csv.column_types.empty()) d.csv.column_types = {{"f", Data_type::float64}};
    std::string dir = c.scratch + "/rd";
    ::mkdir(dir.c_str(), 0700);
    Data_reader_params p;
    std::vector<std::string> ids;
    for (std::size_t s = 0; s < d.contents.size(); s++) {
        std::string name = r.pick<std::string>({std::begin(names), std::end(names)});
        // The names must not be part of each other.
        std::string path = make_file(dir, fmt::format("{}<{}>", name, std::string(s + 1, 's')), d.contents[s]);
        p.dataset.push_back(make_intrusive<File>(path, r.chance(0.5), Compression::none));
        ids.push_back(p.dataset.back()->id());
    }
    struct Bad {
        std::size_t store, row, pos;
    };
    std::vector<Bad> all;
    std::vector<char> is_bad;
    for (std::size_t s = 0; s < d.stores.size(); s++)
        for (std::size_t i = 0; i < d.stores[s].size(); i++) {
            all.push_back({s, i, all.size()});
            is_bad.push_back(d.stores[s][i].bad ? 1 : 0);
        }
    p.batch_size = r.in(1, 8);
    p.num_prefetched_examples = r.below(4);
    p.num_parallel_reads = r.below(4);
    p.warn_bad_instances = r.chance(0.75);
    p.bad_example_handling = static_cast<Bad_example_handling>(r.below(5));
    p.last_example_handling = static_cast<Last_example_handling>(r.below(5));
    if (r.chance(0.25)) p.num_instances_to_skip = r.below(all.size() + 1);
    if (r.chance(0.15)) {
        p.num_shards = r.in(2, 3);
        p.shard_index = r.below(p.num_shards);
    }
    auto range = range_select(all, p);
    std::vector<Bad> sel;
    for (std::size_t i = p.num_shards > 1 ? p.shard_index : 0; i < range.size(); i += p.num_shards > 1 ? p.num_shards : 1) sel.push_back(range[i]);
    // The schema is inferred from the first row, so that it cannot be a bad one.
    if (!range.empty() && is_bad[range[0].pos] != 0) return c.describe("readers: bad first row"), static_cast<void>(c.nontrivial = false);
    if (!sel.empty() && is_bad[sel[0].pos] != 0) return c.describe("readers: bad first row"), static_cast<void>(c.nontrivial = false);
    Tune tune;
    if (r.chance(0.5)) Tune::cut_off(1);
    Log_level level = r.chance(0.85) ? r.pick({Log_level::warning, Log_level::info, Log_level::debug}) : Log_level::off;
    auto bad = p.bad_example_handling;
    auto last = p.last_example_handling;
    bool drop = last == Last_example_handling::drop || last == Last_example_handling::drop_warn;
    std::string pattern;
    for (auto &x : sel) pattern += is_bad[x.pos] != 0 ? 'B' : '.';
    std::string desc = fmt::format("readers {} stores={} {} batch={} last={} bad={} warn={} level={} skip={} shards={}:", kind_name(g.kind), ids.size(), pattern, p.batch_size, static_cast<int>(last), static_cast<int>(bad), p.warn_bad_instances, static_cast<int>(level), p.num_instances_to_skip, p.num_shards);
    for (auto &x : ids) desc += " " + quote(x);
    c.describe(desc);

    // The model
    bool skip = bad == Bad_example_handling::skip || bad == Bad_example_handling::skip_warn;
    std::vector<std::vector<Bad>> groups;                 // the bad rows of each batch that has some
    std::vector<std::vector<std::uint64_t>> about_batches;  // the numbers the messages about batches name
    bool error = false;
    for (std::size_t i = 0, b = 0; i < sel.size(); i += p.batch_size, b++) {
        std::size_t e = std::min(sel.size(), i + p.batch_size);
        if (e - i < p.batch_size) {
            if (last == Last_example_handling::drop_warn || last == Last_example_handling::pad_warn) about_batches.push_back({e - i, p.batch_size});
            if (drop) break;
        }
        std::vector<Bad> in;
        for (std::size_t k = i; k < e; k++)
            if (is_bad[sel[k].pos] != 0) in.push_back(sel[k]);
        if (in.empty()) continue;
        groups.push_back(in);
        if (bad == Bad_example_handling::error) {
            error = true;
            break;
        }
        if (bad == Bad_example_handling::skip_warn) about_batches.push_back({b});
        if (bad == Bad_example_handling::pad_warn) about_batches.push_back({b, in.size()});
    }

    auto sink = std::make_shared<Sink>();
    set_log_level(level);
    bool throwing = r.chance(0.2);
    set_log_message_handler([sink, throwing](Log_level l, std::string_view t) {
        {
            std::lock_guard<std::mutex> lk{sink->mtx};
            sink->got.push_back({l, std::string(t)});
        }
        if (throwing) throw std::runtime_error{"the handler has failed"};
    });
    auto rd = d.open(p);
    std::size_t epochs = r.in(1, 2), seen = 0;
    for (std::size_t ep = 0; ep < epochs; ep++) {
        if (ep != 0) rd->reset();
        sink->take();
        std::string failure;
        bool invalid = false;
        try {
            while (rd->read_example()) {
            }
        }
        catch (const Invalid_instance_error &e) {
            failure = e.what();
            invalid = true;
        }
        catch (const std::exception &e) {
            failure = e.what();
        }
        // A crop of an image that is too small is refused with another type.
        bool image = g.kind == Kind::image_rec || g.kind == Kind::image_file;
        CHECK((invalid == error || image) && failure.empty() == !error, "error", "the dataset is read with the error '{}'", failure);
        if (error) {
            bool named = false;
            // The examples are decoded in parallel: any of the bad rows can be the first one that is met.
            for (auto &x : sel) {
                if (is_bad[x.pos] == 0) continue;
                auto text = failure;
                auto pos = text.find(ids[x.store]);
                if (pos == std::string::npos) continue;
                text.erase(pos, ids[x.store].size());
                named = named || names_number(text, x.row);
            }
            CHECK(named, "error-text", "the error does not name the store and the number of a bad row, the first one of which is #{} of the store {}: {}", groups.back()[0].row, groups.back()[0].store, failure);
            c.count("errors");
            // Stop the reader.
            if (ep + 1 == epochs) rd = nullptr;
            continue;
        }
        auto got = sink->take();
        std::vector<std::vector<std::string>> of_store(ids.size());
        std::vector<std::string> rest;
        for (auto &e : got) {
            CHECK(e.level != Log_level::off && e.level <= level, "level", "a message of the level {} arrives while the level is {}: {}", static_cast<int>(e.level), static_cast<int>(level), e.text);
            if (e.level != Log_level::warning) continue;
            seen++;
            bool found = false;
            for (std::size_t s = 0; s < ids.size() && !found; s++) {
                auto pos = e.text.find(ids[s]);
                if (pos == std::string::npos) continue;
                found = true;
                auto text = e.text;
                of_store[s].push_back(text.erase(pos, ids[s].size()));
            }
            if (!found) rest.push_back(e.text);
        }
        bool on = level != Log_level::off;
        // Each bad row is named once; a batch that is skipped may be left at the first one.
        std::vector<std::size_t> lo(ids.size()), hi(ids.size());
        bool rows_on = on && p.warn_bad_instances;
        std::size_t lo_total = 0, total = 0;
        for (auto &in : groups) {
            lo_total += skip ? 1 : in.size();
            for (auto &x : in) hi[x.store]++;
        }
        for (std::size_t s = 0; s < ids.size(); s++) {
            total += of_store[s].size();
            CHECK(of_store[s].size() <= (rows_on ? hi[s] : 0), "row-count", "{} warnings about the {} bad rows of the store '{}' have been logged: {}", of_store[s].size(), hi[s], ids[s], of_store[s][0]);
            for (auto &m : of_store[s]) {
                bool named = false;
                for (auto &in : groups)
                    for (auto &x : in) named = named || (x.store == s && names_number(m, x.row));
                CHECK(named, "row-number", "a warning does not name a bad row of its store: {}", m);
            }
        }
        if (rows_on) CHECK(total >= lo_total, "row-count", "{} warnings about bad rows have been logged instead of {}", total, lo_total);
        if (rows_on)
            for (auto &in : groups) {
                std::size_t named = 0;
                for (auto &x : in)
                    for (auto &m : of_store[x.store])
                        if (names_number(m, x.row)) {
                            named++;
                            break;
                        }
                CHECK(named >= (skip ? 1 : in.size()), "row-number", "only {} of the {} bad rows of a batch have been named; the first one is the row {} of the store '{}'", named, in.size(), in[0].row, ids[in[0].store]);
            }
        std::size_t want = on ? about_batches.size() : 0;
        CHECK(rest.size() == want, "batch-count", "{} warnings about batches have been logged instead of {}: {}", rest.size(), want, rest.empty() ? "" : rest[0]);
        if (on)
            for (auto &b : about_batches) {
                bool named = false;
                for (auto &m : rest) {
                    bool ok = true;
                    for (auto n : b) ok = ok && names_number(m, n);
                    named = named || ok;
                }
                CHECK(named, "batch-number", "no warning names the numbers {} of a batch: {}", fmt::format("{}", fmt::join(b, ",")), fmt::format("{}", fmt::join(rest, " | ")));
            }
    }
    rd = nullptr;
    c.count("warnings", seen);
    c.nontrivial = seen != 0 || error;
}

// What the messages about the rows of a CSV dataset say: the column and its value, or the numbers of columns.
void csv_messages(Case &c)
{
    Rng &r = c.rng;
    Restore restore;
    struct Want {
        std::size_t row;
        std::string name, value;                // of the field
        std::size_t actual = 0, expected = 0;   // or the numbers of columns
    };
    std::size_t cols = r.in(1, 6), rows = r.in(2, 20), max_len = 0;
    Csv_params cp{};
    Max_field_length_handling h = Max_field_length_handling::truncate;
    if (r.chance(0.3)) {
        cp.max_field_length = max_len = r.in(5, 12);
        cp.max_field_length_handling = h = r.pick({Max_field_length_handling::treat_as_bad, Max_field_length_handling::truncate, Max_field_length_handling::truncate_warn});
    }
    std::vector<std::string> names;
    for (std::size_t i = 0; i < cols; i++) names.push_back(fmt::format("c{}{}", std::string(r.below(4), 'k'), static_cast<char>('a' + i)));
    std::vector<bool> used(cols, true);
    if (r.chance(0.4)) {
        for (std::size_t i = 0; i < cols; i++) used[i] = r.chance(0.6);
        used[r.below(cols)] = true;
        for (std::size_t i = 0; i < cols; i++)
            if (used[i]) cp.use_columns.insert(names[i]);
    }
    // Of a field that is too long, only the beginning can be told; long values are cut off in messages.
    auto shown = [&](const std::string &v) { return v.substr(0, std::min<std::size_t>(64, max_len == 0 ? v.size() : max_len)); };
    bool header = r.chance(0.7);
    if (!header) {
        cp.column_names = names;
        cp.header_row_index = std::nullopt;
    }
    if (r.chance(0.5)) cp.default_data_type = r.pick({Data_type::int32, Data_type::float32});
    Bytes text = header ? fmt::format("{}\n", fmt::join(names, ",")) : "";
    std::vector<Want> want;
    std::size_t index = 0;
    bool fatal = false;
    for (std::size_t i = 0; i < rows; i++, index++) {
        std::vector<std::string> f;
        for (std::size_t k = 0; k < cols; k++) f.push_back(std::to_string(r.below(999)));
        std::size_t how = i == 0 ? 9 : r.below(10);
        if (how == 0) {
            // Too few, or too many columns
            std::size_t n = r.in(1, cols + 4);
            f.resize(n, r.chance(0.3) ? "7777777777777777777" : "7");
        }
        else if (how == 1 || how == 2) {
            for (std::size_t n = r.in(1, 2); n-- > 0;) f[r.below(cols)] = fmt::format("w{}{}", r.below(99), std::string(r.below(r.chance(0.2) ? 90 : 4), 'z'));
            if (r.chance(0.2)) f.resize(r.in(1, cols + 2), "7");
        }
        else if (how == 3 && max_len != 0) {
            f[r.below(cols)] = std::string(max_len + r.in(1, 8), '0') + "1";
        }
        text += fmt::format("{}\n", fmt::join(f, ","));
        // The fields are judged from left to right, up to the first bad one.
        bool bad = false;
        for (std::size_t k = 0; k < std::min(f.size(), cols) && !bad; k++) {
            if (!used[k]) continue;
            bool is_long = max_len != 0 && f[k].size() > max_len, word = f[k][0] == 'w';
            if (is_long && h != Max_field_length_handling::truncate) {
                want.push_back({index, names[k], shown(f[k]), 0, 0});
                bad = h == Max_field_length_handling::treat_as_bad;
            }
            if (!bad && word) {
                want.push_back({index, names[k], shown(f[k]), 0, 0});
                bad = true;
            }
        }
        if (!bad && f.size() != cols) want.push_back({index, "", "", f.size(), cols});
    }
    Data_reader_params p;
    p.batch_size = r.in(1, 7);
    p.bad_example_handling = r.chance(0.8) ? Bad_example_handling::pad : Bad_example_handling::error;
    p.last_example_handling = Last_example_handling::none;
    p.warn_bad_instances = true;
    fatal = p.bad_example_handling == Bad_example_handling::error;
    auto store = memory_store(text);
    p.dataset.push_back(store);
    if (r.chance(0.4)) Tune::cut_off(1);
    c.describe(fmt::format("csv messages cols={} max-length={} handling={} bad={} used={} text: {}", cols, max_len, static_cast<int>(h), static_cast<int>(p.bad_example_handling), fmt::join(used, ""), quote(text, 500)));
    auto sink = std::make_shared<Sink>();
    set_log_level(Log_level::warning);
    set_log_message_handler([sink](Log_level l, std::string_view t) {
        std::lock_guard<std::mutex> lk{sink->mtx};
        sink->got.push_back({l, std::string(t)});
    });
    auto rd = make_intrusive<Csv_reader>(p, cp);
    std::string failure;
    try {
        while (rd->read_example()) {
        }
    }
    catch (const Invalid_instance_error &e) {
        failure = e.what();
    }
    rd = nullptr;
    auto says = [&](std::string text, const Want &w) {
        auto pos = text.find(store->id());
        if (pos == std::string::npos) return false;
        text.erase(pos, store->id().size());
        auto v = integers(text);
        auto has_number = [&](std::size_t n) {
            auto it = std::find(v.begin(), v.end(), n);
            if (it == v.end()) return false;
            v.erase(it);
            return true;
        };
        if (!w.name.empty()) return has(text, "'" + w.name + "'") && has(text, "'" + w.value + "'") && has_number(w.row);
        return has_number(w.row) && has_number(w.actual) && has_number(w.expected);
    };
    if (fatal) {
        bool any = false, must = false;
        for (auto &w : want) {
            must = must || h != Max_field_length_handling::truncate_warn;
            any = any || says(failure, w);
        }
        if (must) CHECK(any, "csv-text", "the error does not name the column and value, or the numbers of columns, of a bad row: '{}'", failure);
    }
    else {
        CHECK(failure.empty(), "error", "the dataset is read with the error '{}'", failure);
        auto got = sink->take();
        for (auto &w : want) {
            auto it = std::find_if(got.begin(), got.end(), [&](const Entry &e) { return says(e.text, w); });
            if (it == got.end())
                CHECK(false, "csv-text", "{}", w.name.empty() ? fmt::format("no warning names the row #{} and its {} columns instead of {}", w.row, w.actual, w.expected) : fmt::format("no warning names the row #{}, the column '{}' and the value '{}'", w.row, w.name, w.value));
            got.erase(it);
        }
        CHECK(got.empty(), "row-count", "{} warnings more than the {} expected ones have been logged: {}", got.size(), want.size(), got[0].text);
    }
    c.count("messages about CSV rows", want.size());
    c.nontrivial = !want.empty();
}

}  // namespace

void run_case(Case &c)
{
    unsigned k = static_cast<unsigned>(c.rng.below(10));
    if (k < 4)
        sequence(c);
    else if (k < 6)
        schedule(c);
    else if (k < 9)
        readers(c);
    else
        csv_messages(c);
}
}  // namespace V
