// The task library is not instrumented, so ThreadSanitizer cannot see how it hands tasks over.
// These functions take the place of the library's entry points in the instrumented binary and
// tell ThreadSanitizer what the library guarantees: a task starts after it has been spawned,
// and whoever waits continues after the work is done.
#ifdef VERIF_TSAN
#include <dlfcn.h>
#include <sanitizer/tsan_interface.h>
#include <tbb/flow_graph.h>
#include <tbb/tbb.h>

#include <atomic>
#include <cstdlib>
#include <new>

namespace V {
std::atomic<unsigned long> handed_over{};
}

namespace tbb::detail {
namespace {

template<typename F>
F *real(const char *name)
{
    void *p = ::dlsym(RTLD_NEXT, name);
    if (p == nullptr) std::abort();
    return reinterpret_cast<F *>(p);
}

struct Wrapper final : d1::task {
    d1::task *inner;
    explicit Wrapper(d1::task *t) : inner{t} {}
    d1::task *execute(d1::execution_data &ed) override
    {
        __tsan_acquire(this);
        // If this throws, the library goes on with cancel().
        d1::task *next = inner->execute(ed);
        delete this;
        return next;
    }
    d1::task *cancel(d1::execution_data &ed) override
    {
        __tsan_acquire(this);
        d1::task *t = inner;
        delete this;
        return t->cancel(ed);
    }
};

d1::task &wrap(d1::task &t)
{
    V::handed_over.fetch_add(1, std::memory_order_relaxed);
    auto *w = new Wrapper{&t};
    __tsan_release(w);
    return *w;
}

struct Delegate final : d1::delegate_base {
    d1::delegate_base &inner;
    mutable int done{};
    explicit Delegate(d1::delegate_base &d) : inner{d} {}
    bool operator()() const override
    {
        __tsan_acquire(const_cast<d1::delegate_base *>(&inner));
        struct Release {
            void *p;
            ~Release() { __tsan_release(p); }
        } r{&done};
        return inner();
    }
};

void done(d1::wait_context &w)
{
    // The counter itself is decremented by instrumented code.
    reinterpret_cast<std::atomic<std::uint64_t> *>(reinterpret_cast<char *>(&w) + 8)->load(std::memory_order_acquire);
}

}  // namespace

namespace r1 {

void spawn(d1::task &t, d1::task_group_context &c)
{
    static auto *f = real<void(d1::task &, d1::task_group_context &)>("_ZN3tbb6detail2r15spawnERNS0_2d14taskERNS2_18task_group_contextE");
    f(wrap(t), c);
}
void spawn(d1::task &t, d1::task_group_context &c, d1::slot_id id)
{
    static auto *f = real<void(d1::task &, d1::task_group_context &, d1::slot_id)>("_ZN3tbb6detail2r15spawnERNS0_2d14taskERNS2_18task_group_contextEt");
    f(wrap(t), c, id);
}
void submit(d1::task &t, d1::task_group_context &c, arena *a, std::uintptr_t critical)
{
    static auto *f = real<void(d1::task &, d1::task_group_context &, arena *, std::uintptr_t)>("_ZN3tbb6detail2r16submitERNS0_2d14taskERNS2_18task_group_contextEPNS1_5arenaEm");
    f(wrap(t), c, a, critical);
}
void enqueue(d1::task &t, d1::task_group_context &c, d1::task_arena_base *a)
{
    static auto *f = real<void(d1::task &, d1::task_group_context &, d1::task_arena_base *)>("_ZN3tbb6detail2r17enqueueERNS0_2d14taskERNS2_18task_group_contextEPNS2_15task_arena_baseE");
    f(wrap(t), c, a);
}
void enqueue(d1::task &t, d1::task_arena_base *a)
{
    static auto *f = real<void(d1::task &, d1::task_arena_base *)>("_ZN3tbb6detail2r17enqueueERNS0_2d14taskEPNS2_15task_arena_baseE");
    f(wrap(t), a);
}
void execute(d1::task_arena_base &a, d1::delegate_base &d)
{
    static auto *f = real<void(d1::task_arena_base &, d1::delegate_base &)>("_ZN3tbb6detail2r17executeERNS0_2d115task_arena_baseERNS2_13delegate_baseE");
    Delegate w{d};
    __tsan_release(&d);
    f(a, w);
    __tsan_acquire(&w.done);
}
void wait(d1::wait_context &w, d1::task_group_context &c)
{
    static auto *f = real<void(d1::wait_context &, d1::task_group_context &)>("_ZN3tbb6detail2r14waitERNS0_2d112wait_contextERNS2_18task_group_contextE");
    struct Done {
        d1::wait_context &w;
        ~Done() { done(w); }
    } x{w};
    f(w, c);
}
void execute_and_wait(d1::task &t, d1::task_group_context &tc, d1::wait_context &w, d1::task_group_context &wc)
{
    static auto *f = real<void(d1::task &, d1::task_group_context &, d1::wait_context &, d1::task_group_context &)>(
        "_ZN3tbb6detail2r116execute_and_waitERNS0_2d14taskERNS2_18task_group_contextERNS2_12wait_contextES6_");
    struct Done {
        d1::wait_context &w;
        ~Done() { done(w); }
    } x{w};
    f(wrap(t), tc, w, wc);
}

// Memory that the library recycles among threads without telling.
void *allocate(d1::small_object_pool *&p, std::size_t n, const d1::execution_data &)
{
    p = reinterpret_cast<d1::small_object_pool *>(8);
    return ::operator new(n, std::align_val_t{64});
}
void *allocate(d1::small_object_pool *&p, std::size_t n)
{
    p = reinterpret_cast<d1::small_object_pool *>(8);
    return ::operator new(n, std::align_val_t{64});
}
void deallocate(d1::small_object_pool &, void *p, std::size_t, const d1::execution_data &)
{
    ::operator delete(p, std::align_val_t{64});
}
void deallocate(d1::small_object_pool &, void *p, std::size_t)
{
    ::operator delete(p, std::align_val_t{64});
}
void *cache_aligned_allocate(std::size_t n)
{
    return ::operator new(n, std::align_val_t{128});
}
void cache_aligned_deallocate(void *p)
{
    ::operator delete(p, std::align_val_t{128});
}

}  // namespace r1
}  // namespace tbb::detail
#endif
