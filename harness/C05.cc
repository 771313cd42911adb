#include <tbb/global_control.h>
#include <tbb/parallel_for.h>

#include <algorithm>
#include <condition_variable>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C05";
const char *const rule =
    "Each case runs one or several readers over stores that are fast, slow, failing or blocked for a while, and reads, peeks, resets and destroys them at drawn moments of the pipeline's progress, "
    "from one or several threads, with thread limits and schedule perturbation; a watchdog reports a call that does not return, and a final epoch must be complete. "
    "Non-trivial: a reader was stopped while its pipeline was running, or at least two readers were active. Distinct by configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 40000 : 3000; }

namespace {

// Blocks the reads of a store until it is opened.
struct Gate {
    std::mutex m;
    std::condition_variable cv;
    bool open = true;
    void set(bool o)
    {
        {
            std::lock_guard<std::mutex> l{m};
            open = o;
        }
        cv.notify_all();
    }
    void pass()
    {
        std::unique_lock<std::mutex> l{m};
        cv.wait(l, [&] { return open; });
    }
};

void wait_points(Rng &r, std::uint64_t limit)
{
    std::uint64_t target = Perturb::num_points() + r.below(limit);
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(3);
    while (Perturb::num_points() < target && std::chrono::steady_clock::now() < end) std::this_thread::yield();
}

struct Subject {
    Dataset d;
    Data_reader_params p;
    std::vector<std::shared_ptr<Plan>> plans;
    std::shared_ptr<Gate> gate = std::make_shared<Gate>();
    std::shared_ptr<std::atomic_bool> faulty = std::make_shared<std::atomic_bool>(false);
    std::vector<std::string> expected;
    bool error = false;
};

Subject make_subject(Case &c, bool small)
{
    Rng &r = c.rng;
    Subject s;
    Gen g;
    g.kind = r.pick(all_kinds);
    g.num_rows = r.chance(0.1) ? r.below(3) : r.in(1, small ? 25 : 60);
    g.num_stores = r.in(1, 5);
    s.error = r.chance(0.15);
    if (s.error) g.bad = 0.1;
    s.d = make_dataset(r, g);
    if (s.d.kind == Kind::csv && s.error && s.d.csv.column_types.empty()) s.d.csv.column_types = {{"f", Data_type::float64}};
    s.expected = s.d.dumps();
    s.p.batch_size = r.chance(0.5) ? 1 : r.in(1, 5);
    s.p.num_prefetched_examples = r.chance(0.5) ? r.in(1, 2) : r.below(6);
    s.p.num_parallel_reads = r.below(5);
    if (s.error) s.p.bad_example_handling = r.pick({Bad_example_handling::error, Bad_example_handling::error, Bad_example_handling::skip, Bad_example_handling::pad});
    if (!s.error && r.chance(0.1)) {
        s.p.shuffle_instances = true;
        s.p.shuffle_window = r.below(8);
    }
    bool slow = r.chance(0.3);
    double fail = r.chance(0.4) ? 0.02 : 0.0;
    for (std::size_t i = 0; i < s.d.contents.size(); i++) {
        auto plan = make_plan(s.d.contents[i], fmt::format("store-{}", i));
        plan->seed = r.next();
        plan->max_read = r.chance(0.4) ? 0 : r.in(1, 60);
        plan->random_reads = true;
        plan->delay_us = slow ? 400 : 0;
        auto gate = s.gate;
        auto faulty = s.faulty;
        auto seed = r.next();
        plan->on_read = [gate, faulty, seed, fail](std::size_t nr, std::size_t off) -> std::size_t {
            gate->pass();
            if (*faulty) {
                Rng x{seed ^ (nr * 1000003 + off)};
                if (x.chance(fail)) throw_err(static_cast<Err>(x.below(4)));
            }
            return 0;
        };
        plan->on_open = [gate, faulty, seed, fail](std::size_t nr) {
            gate->pass();
            if (*faulty) {
                Rng x{seed ^ (nr * 7777777)};
                if (x.chance(fail)) throw_err(static_cast<Err>(x.below(4)));
            }
        };
        s.plans.push_back(plan);
        s.p.dataset.push_back(make_store(plan));
    }
    if (fail > 0) *s.faulty = true;
    return s;
}

// Reads the rest of the epoch; exceptions are expected.
void drain(Data_reader &rd, std::size_t limit)
{
    try {
        for (std::size_t i = 0; i < limit; i++)
            if (rd.read_example() == nullptr) break;
    }
    catch (const Violation &) {
        throw;
    }
    catch (const std::exception &) {
    }
}

void final_epoch(Subject &s, Data_reader &rd)
{
    *s.faulty = false;
    s.gate->set(true);
    rd.reset();
    auto res = read_all(rd);
    if (s.error) return;
    CHECK(res.error.empty(), "final-epoch", "the epoch after all faults fails: {}: {}", res.error, res.error_text);
    if (s.p.shuffle_instances) {
        std::sort(res.rows.begin(), res.rows.end());
        auto e = s.expected;
        std::sort(e.begin(), e.end());
        CHECK(e == res.rows, "final-epoch", "{}", first_difference(e, res.rows));
    }
    else {
        auto diff = first_difference(s.expected, res.rows);
        CHECK(diff.empty(), "final-epoch", "{}", diff);
    }
}

// One reader that is stopped at arbitrary moments.
void single(Case &c, unsigned level)
{
    Rng &r = c.rng;
    Subject s = make_subject(c, false);
    std::string ops;
    std::size_t n = r.in(3, 25);
    for (std::size_t i = 0; i < n; i++) ops += r.pick({'r', 'r', 'r', 'p', 'w', 'R', 'R', 'D', 'g', 'd', 's', '~'});
    std::size_t limit = r.pick<std::size_t>({3, 10, 60});
    c.describe(fmt::format("single {} rows={} batch={} prefetch={} parallel={} error={} faulty={} perturb={} ops={}", kind_name(s.d.kind), s.d.size(), s.p.batch_size, s.p.num_prefetched_examples, s.p.num_parallel_reads, s.error, s.faulty->load(), level, ops));
    Perturb pert{r.next(), level};
    auto rd = s.d.open(s.p);
    std::vector<std::thread> timers;
    bool other_thread = r.chance(0.2);
    auto act = [&](auto f) {
        if (!other_thread || r.chance(0.5)) return f();
        std::exception_ptr e;
        std::thread t{[&] {
            try {
                f();
            }
            catch (...) {
                e = std::current_exception();
            }
        }};
        t.join();
        if (e) std::rethrow_exception(e);
    };
    std::size_t stops = 0;
    for (char op : ops) {
        try {
            switch (op) {
            case 'r':
                act([&] { rd->read_example(); });
                break;
            case 'p':
                act([&] { rd->peek_example(); });
                break;
            case 's':
                act([&] { rd->read_schema(); });
                break;
            case 'w':
                wait_points(r, limit);
                break;
            case '~':
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
                break;
            case 'R':
                act([&] { rd->reset(); });
                stops++;
                break;
            case 'D':
                act([&] { rd = nullptr; });
                stops++;
                rd = s.d.open(s.p);
                break;
            case 'd':
                drain(*rd, 1000);
                break;
            case 'g': {
                // The store does not answer for a while.
                s.gate->set(false);
                auto us = r.in(100, 6000);
                timers.emplace_back([gate = s.gate, us] {
                    std::this_thread::sleep_for(std::chrono::microseconds(us));
                    gate->set(true);
                });
                break;
            }
            default:
                break;
            }
        }
        catch (const Violation &) {
            throw;
        }
        catch (const std::exception &) {
            c.count("exceptions");
        }
    }
    for (auto &t : timers) t.join();
    if (r.chance(0.7)) final_epoch(s, *rd);
    c.count("stops", stops);
    c.nontrivial = stops != 0;
}

// Several readers that are read in turn, most of them paused at any time.
void several(Case &c, unsigned level)
{
    Rng &r = c.rng;
    std::size_t n = r.chance(0.3) ? r.in(9, 24) : r.in(2, 8);
    std::size_t threads = r.chance(0.4) ? 0 : r.in(1, 4);
    int mode = static_cast<int>(r.below(3));
    c.describe(fmt::format("several readers={} threads={} mode={} perturb={}", n, threads, mode, level));
    std::unique_ptr<tbb::global_control> gc;
    if (threads != 0) gc = std::make_unique<tbb::global_control>(tbb::global_control::max_allowed_parallelism, threads);
    std::vector<Subject> subjects;
    for (std::size_t i = 0; i < n; i++) {
        subjects.push_back(make_subject(c, true));
        *subjects.back().faulty = false;
    }
    Perturb pert{r.next(), level};
    std::vector<Intrusive_ptr<Data_reader>> rds;
    for (auto &s : subjects) rds.push_back(s.d.open(s.p));
    std::size_t rounds = r.in(1, 12);
    if (mode == 0) {
        // Round robin, then destruction in a random order.
        for (std::size_t k = 0; k < rounds; k++)
            for (auto &rd : rds) drain(*rd, 1);
        while (!rds.empty()) {
            std::size_t i = r.below(rds.size());
            if (r.chance(0.2)) final_epoch(subjects[i], *rds[i]);
            rds.erase(rds.begin() + static_cast<std::ptrdiff_t>(i));
            subjects.erase(subjects.begin() + static_cast<std::ptrdiff_t>(i));
        }
    }
    else if (mode == 1) {
        // All are paused with full queues while one is read to its end.
        for (auto &rd : rds) drain(*rd, 1);
        for (std::size_t k = 0; k < 3; k++) {
            std::size_t i = r.below(rds.size());
            final_epoch(subjects[i], *rds[i]);
            std::size_t j = r.below(rds.size());
            rds[j]->reset();
            drain(*rds[j], 1);
        }
    }
    else {
        // Read by concurrent tasks of the application.
        std::mutex m;
        std::string failure;
        tbb::parallel_for(std::size_t{0}, rds.size(), [&](std::size_t i) {
            try {
                for (std::size_t k = 0; k < 2; k++) final_epoch(subjects[i], *rds[i]);
            }
            catch (const Violation &v) {
                std::lock_guard<std::mutex> l{m};
                failure = v.msg;
            }
        });
        CHECK(failure.empty(), "final-epoch", "{}", failure);
    }
    c.count("readers in turn", n);
    c.nontrivial = true;
}

}  // namespace

void run_case(Case &c)
{
    Rng &r = c.rng;
    Tune t;
    if (r.chance(0.4)) Tune::cut_off(1);
    auto level = static_cast<unsigned>(r.below(4));
    if (r.chance(0.75))
        single(c, level);
    else
        several(c, level);
    c.count("pipeline points", Perturb::num_points());
    c.observe("interleavings", Perturb::interleaving());
}
}  // namespace V
