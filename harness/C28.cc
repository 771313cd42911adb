#include <tbb/tbb.h>

#include <algorithm>

#include "datasets.h"
namespace V {
using namespace mlio;
const char *const property_id = "C28";
const char *const rule =
    "Each case reads a dataset of many one-instance stores with a consumer that pauses at drawn moments; counters in the stores record how many instances have been taken when each one is opened and how many image stores are "
    "open at once in the decoders. They are compared with what has been delivered and the limits that the prefetch parameters set; a paused consumer must find the prefetch buffer filled. "
    "Non-trivial: the dataset is larger than the allowed read-ahead. Distinct by configuration.";
std::uint64_t num_cases(bool thorough) { return thorough ? 12000 : 900; }

void run_case(Case &c)
{
    Rng &r = c.rng;
    bool image = r.chance(0.4);
    std::size_t b = r.chance(0.3) ? 1 : r.in(1, 6);
    std::size_t P = r.chance(0.1) ? 0 : r.in(1, 6);
    // Some large buffers as well.
    bool large = r.chance(0.03);
    if (large) {
        b = r.in(1, 2);
        P = r.in(20, 70);
    }
    std::size_t R = r.chance(0.3) ? 0 : r.in(1, 9);
    std::size_t p_eff = P == 0 ? static_cast<std::size_t>(tbb::info::default_concurrency()) : P;
    std::size_t r_eff = R == 0 || R > p_eff ? p_eff : R;
    std::size_t limit = (2 * p_eff + r_eff + 3) * b;
    std::size_t n = std::max<std::size_t>(limit * 2, 20);
    if (n > 300 && !large) n = 300;
    auto level = static_cast<unsigned>(r.below(4));
    bool slow_decode = image && r.chance(0.7);
    c.describe(fmt::format("{} rows={} batch={} prefetch={} parallel={} perturb={} slow={}", image ? "image" : "text", n, b, P, R, level, slow_decode));

    Data_reader_params p;
    p.batch_size = b;
    p.num_prefetched_examples = P;
    p.num_parallel_reads = R;
    std::atomic_size_t taken{0}, delivered{0}, max_ahead{0}, live{0}, max_live{0};
    auto maximum = [](std::atomic_size_t &m, std::size_t v) {
        std::size_t o = m;
        while (o < v && !m.compare_exchange_weak(o, v)) {}
    };
    std::vector<std::shared_ptr<Plan>> plans;
    for (std::size_t i = 0; i < n; i++) {
        Bytes content;
        if (image) {
            Bytes px(6, static_cast<char>(i));
            content = encode_png(3, 2, 1, px);
        }
        else
            content = fmt::format("{}\n", i);
        auto plan = make_plan(content, fmt::format("s{}", i));
        plan->seed = r.next();
        auto first = std::make_shared<std::atomic_bool>(true);
        auto *pl = plan.get();
        plan->on_open = [&, first](std::size_t) {
            if (first->exchange(false)) maximum(max_ahead, ++taken - std::min<std::size_t>(taken, delivered));
        };
        plan->on_read = [&, pl](std::size_t, std::size_t off) -> std::size_t {
            if (image && off == 0) {
                // The stream is open from now on.
                maximum(max_live, ++live);
                if (slow_decode) std::this_thread::sleep_for(std::chrono::microseconds(300));
                --live;
            }
            (void)pl;
            return 0;
        };
        plans.push_back(plan);
        p.dataset.push_back(make_store(plan));
    }
    Dataset d;
    d.kind = image ? Kind::image_file : Kind::text;
    d.img.image_dimensions = {1, 2, 3};
    auto rd = d.open(p);
    Perturb pert{r.next(), level};
    std::size_t ex = 0;
    std::size_t pause_at = r.below(n / b + 1), pauses = 0;
    while (true) {
        auto e = rd->read_example();
        if (e == nullptr) break;
        delivered += batch_dim(*e);
        ex++;
        if (ex == pause_at || (ex == 1 && r.chance(0.5))) {
            // Wait until the prefetch buffer has been filled.
            std::size_t want = std::min(n, delivered + p_eff * b);
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(25);
            while (taken < want && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(50));
            CHECK(taken >= want, "no-read-ahead", "only {} instances are taken while the consumer pauses after {}; the prefetch buffer holds {} examples of {}", taken.load(), delivered.load(), p_eff, b);
            // Do not stop at a limit that is going to be exceeded.
            std::size_t still = r.in(1, 4);
            for (std::size_t k = 0, before = 0; k < still && taken < n; before == taken ? k++ : k = 0) {
                before = taken;
                std::this_thread::sleep_for(std::chrono::microseconds(1500));
            }
            pauses++;
        }
        else if (r.chance(0.1))
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
        CHECK(max_ahead <= limit, "read-ahead", "{} instances are taken ahead of the consumer, the limit is {} (batch {}, {} prefetched, {} parallel)", max_ahead.load(), limit, b, p_eff, r_eff);
    }
    CHECK(delivered == n, "rows", "{} of {} rows", delivered.load(), n);
    if (image) CHECK(max_live <= r_eff, "decode-concurrency", "{} batches are decoded at the same time, the limit is {}", max_live.load(), r_eff);
    c.count("examples", ex);
    c.count("pauses", pauses);
    c.observe("read-ahead (instances)", max_ahead);
    if (image) c.observe("concurrent decoders", max_live);
    c.observe("interleavings", Perturb::interleaving());
    c.nontrivial = n > limit;
}
}  // namespace V
