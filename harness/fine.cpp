// The memory accesses of the library: it is compiled with -fsanitize=thread, and
// these functions stand in for the sanitizer's run-time library.
#include "hx.hpp"
#include <condition_variable>
#include <link.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <string.h>
#include <unistd.h>

#ifndef FINE
namespace hx
{
bool fine_available() { return false; }
Fine &fine() { static thread_local Fine f; return f; }
void fine_thread(int) { fine() = Fine(); }
void fine_text(const uint8_t *, size_t, const void *, const void *) {}
void sched_start(const Schedule &, int) {}
void sched_enter(int) {}
void sched_leave(int) {}
}
#else
namespace hx
{
bool fine_available() { return true; }
static thread_local Fine *my = nullptr;
static thread_local bool busy = false;
static thread_local int who_ = -1;
static thread_local uintptr_t stack_lo = 0, stack_hi = 0, text_lo = 0, text_hi = 0, text_at = 0, text_end = 0;
static thread_local bool text_gone = false;
Fine &fine()
{
    if (!my) my = new Fine();
    return *my;
}
struct Quiet // the monitor's own work is not the library's
{
    bool was;
    Quiet() : was(busy) { busy = true; }
    ~Quiet() { busy = was; }
};
struct B { size_t size; int who; };
static std::map<uintptr_t, B> *blocks = nullptr;
static std::mutex guard;
static volatile uint64_t epoch = 1;
struct Seen { uintptr_t lo, hi; };
static thread_local Seen seen[8];
static thread_local uint64_t seen_epoch = 0;
static thread_local unsigned seen_at = 0;
static uintptr_t data_lo = 0, data_hi = 0;

static int on_phdr(struct dl_phdr_info *i, size_t, void *)
{
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        const ElfW(Phdr) &p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W))
        {
            data_lo = i->dlpi_addr + p.p_vaddr;
            data_hi = data_lo + p.p_memsz;
        }
    }
    return 1; // the executable comes first
}
void fine_thread(int who)
{
    Quiet q;
    fine() = Fine();
    who_ = who;
    seen_epoch = 0;
    text_lo = text_hi = 0;
    text_gone = false;
    pthread_attr_t a;
    if (pthread_getattr_np(pthread_self(), &a) == 0)
    {
        void *lo;
        size_t n;
        pthread_attr_getstack(&a, &lo, &n);
        stack_lo = (uintptr_t)lo;
        stack_hi = stack_lo + n;
        pthread_attr_destroy(&a);
    }
    if (!data_lo) dl_iterate_phdr(on_phdr, nullptr);
}
void fine_text(const uint8_t *t, size_t n, const void *lo, const void *hi)
{
    text_at = (uintptr_t)t;
    text_end = text_at + n + 1;
    text_lo = (uintptr_t)lo;
    text_hi = (uintptr_t)hi;
    text_gone = false;
}
void fine_text_gone() { text_gone = true; }
void fine_block(void *p, size_t n)
{
    if (busy || who_ < 0) return;
    Quiet q;
    std::lock_guard<std::mutex> l(guard);
    if (!blocks) blocks = new std::map<uintptr_t, B>();
    (*blocks)[(uintptr_t)p] = B{n, who_};
    fine().marks.push_back(fine().accesses);
}
void fine_unblock(void *p)
{
    if (busy || !blocks) return;
    Quiet q;
    std::lock_guard<std::mutex> l(guard);
    blocks->erase((uintptr_t)p);
    ++epoch;
    if (who_ >= 0) fine().marks.push_back(fine().accesses);
}
static void note(const char *what, uintptr_t a, size_t n, bool w)
{
    Fine &f = *my;
    if (!f.first.empty()) return;
    char b[100];
    snprintf(b, sizeof b, "%s %s of %zu bytes", what, w ? "write" : "read", n);
    f.first = b;
    (void)a;
}
static void classify(uintptr_t a, size_t n, bool w)
{
    if (a >= stack_lo && a < stack_hi) return;
    Fine &f = *my;
    if (a >= text_lo && a < text_hi)
    {
        if (a < text_at || a + n > text_end) ++f.outside;
        else if (text_gone) ++f.late;
        else if (w) ++f.written;
        return;
    }
    if (seen_epoch != epoch)
    {
        memset(seen, 0, sizeof seen);
        seen_epoch = epoch;
    }
    for (auto &s : seen)
        if (a >= s.lo && a + n <= s.hi) return;
    std::lock_guard<std::mutex> l(guard);
    if (blocks && !blocks->empty())
    {
        auto it = blocks->upper_bound(a);
        if (it != blocks->begin())
        {
            --it;
            if (a < it->first + it->second.size)
            {
                if (it->second.who != who_) { ++f.foreign; note("another transform's block:", a, n, w); return; }
                if (a + n > it->first + it->second.size) { ++f.wild; note("past the end of a block:", a, n, w); return; }
                seen[seen_at++ % 8] = Seen{it->first, it->first + it->second.size};
                return;
            }
        }
    }
    if (a >= data_lo && a < data_hi)
    {
        if (w) { ++f.statics; note("static data:", a, n, w); }
        return;
    }
    // code, constants and other libraries' data may be read
    if (w) { ++f.wild; note("no block:", a, n, w); return; }
    struct Find { uintptr_t a; bool hit; } x = {a, false};
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *v) {
        Find *y = (Find *)v;
        for (int k = 0; k < i->dlpi_phnum; ++k)
        {
            const ElfW(Phdr) &p = i->dlpi_phdr[k];
            if (p.p_type == PT_LOAD && y->a >= i->dlpi_addr + p.p_vaddr && y->a < i->dlpi_addr + p.p_vaddr + p.p_memsz) y->hit = true;
        }
        return 0;
    }, &x);
    if (!x.hit) { ++f.wild; note("no block:", a, n, w); }
}

// ---------------------------------------------------------------- schedules
static std::mutex turn_m;
static std::condition_variable turn_c;
static Schedule plan;
static size_t plan_at = 0;
static volatile bool planned = false;
static std::vector<int> state_;   // 0 not yet here, 1 here, 2 gone
static volatile int turn = -1;
static thread_local uint64_t left_ = 0;
static thread_local bool scheduled = false;

static void choose() // with turn_m held
{
    for (; plan_at < plan.size(); ++plan_at)
        if (state_[(size_t)plan[plan_at].first] != 2 && plan[plan_at].second > 0) { turn = plan[plan_at].first; return; }
    for (size_t i = 0; i < state_.size(); ++i)
        if (state_[i] != 2) { turn = (int)i; return; }
    turn = -1;
}
static void await(std::unique_lock<std::mutex> &l, int who)
{
    turn_c.wait(l, [&]() { return turn == who; });
    left_ = plan_at < plan.size() ? plan[plan_at].second : ~0ULL;
}
void sched_start(const Schedule &s, int threads)
{
    plan = s;
    plan_at = 0;
    state_.assign((size_t)threads, 0);
    planned = true;
    choose();
}
void sched_enter(int who)
{
    Quiet q;
    std::unique_lock<std::mutex> l(turn_m);
    await(l, who);
    scheduled = true;
}
void sched_leave(int who)
{
    Quiet q;
    std::unique_lock<std::mutex> l(turn_m);
    scheduled = false;
    state_[(size_t)who] = 2;
    choose();
    turn_c.notify_all();
}
static void pass()
{
    Quiet q;
    std::unique_lock<std::mutex> l(turn_m);
    int me = turn;
    ++plan_at;
    choose();
    if (turn != me) turn_c.notify_all();
    await(l, me);
}

static inline void access(const void *p, size_t n, bool w)
{
    if (busy || !in_scope() || who_ < 0) return;
    ++my->accesses;
    if (scheduled && --left_ == 0) pass();
    Quiet q;
    classify((uintptr_t)p, n, w);
}
void fine_range(const void *p, size_t n, bool w)
{
    if (n) access(p, n, w);
}
} // namespace hx

using hx::access;
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void *p) { access(p, N, false); } \
    void __tsan_write##N(void *p) { access(p, N, true); } \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false); } \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true); } \
    void __tsan_volatile_read##N(void *p) { access(p, N, false); } \
    void __tsan_volatile_write##N(void *p) { access(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true); } \
    void __tsan_read_write##N(void *p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, sizeof *p, true); }
void __tsan_vptr_read(void **p) { access(p, sizeof *p, false); }
#define ATOMIC(BITS, T) \
    T __tsan_atomic##BITS##_load(const volatile T *a, int) { access((const void *)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##BITS##_store(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_exchange(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_add(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_sub(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_or(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_and(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_fetch_xor(volatile T *a, T v, int) { access((const void *)a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((const void *)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((const void *)a, sizeof(T), true); return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((const void *)a, sizeof(T), true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// the library's calls of these are renamed
void *hxm_memcpy(void *d, const void *s, size_t n) { hx::fine_range(s, n, false); hx::fine_range(d, n, true); return memcpy(d, s, n); }
void *hxm_memmove(void *d, const void *s, size_t n) { hx::fine_range(s, n, false); hx::fine_range(d, n, true); return memmove(d, s, n); }
void *hxm_memset(void *d, int c, size_t n) { hx::fine_range(d, n, true); return memset(d, c, n); }
int hxm_memcmp(const void *a, const void *b, size_t n)
{ // up to the first difference
    size_t k = 0;
    while (k < n && ((const char *)a)[k] == ((const char *)b)[k]) ++k;
    size_t m = k < n ? k + 1 : n;
    hx::fine_range(a, m, false);
    hx::fine_range(b, m, false);
    return memcmp(a, b, n);
}
void *hxm_memchr(const void *a, int c, size_t n)
{
    void *r = (void *)memchr(a, c, n);
    hx::fine_range(a, r ? (size_t)((char *)r - (const char *)a) + 1 : n, false);
    return r;
}
} // extern "C"
#endif
