// Replacement of the allocation functions and of stdio, for the driver only.
#include "hx.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <new>

namespace hx
{
static thread_local int scope = 0;
void enter() { ++scope; }
void leave() { --scope; }
bool in_scope() { return scope > 0; }
}

#ifdef NO_INTERPOSE
namespace hx
{
bool interposed() { return false; }
void mem_reset() { mem = Mem(); }
bool check_block(void *) { return true; }
int id_of(void *) { return -1; }
int kind_of(void *) { return 0; }
void width_event(int) {}
void peak_event(int) {}
}
#else

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_memalign(size_t, size_t);

namespace hx
{
bool interposed() { return true; }

struct Hdr
{
    uint64_t magic;
    uint64_t size;
    int32_t id; // >= 0: allocated in scope
    int32_t kind;
    uint64_t pad;
    uint64_t cap;  // bytes usable without moving
    uint64_t pad2;
};
static_assert(sizeof(Hdr) == 48, "header size");
static const uint64_t LIVE = 0x11FEB10C11FEB10CULL, DEAD = 0xDEADB10CDEADB10CULL;
static const size_t TAIL = 16;
static int next_id = 0;
static uint64_t rnd = 88172645463325252ULL;

struct Quarantined { Hdr *h; };
static Quarantined *quarantine = nullptr;
static size_t qn = 0, qcap = 0;
static uint64_t qbytes = 0;
static volatile int lock_ = 0;
static thread_local int lock_depth = 0; // reports allocate while they hold it
struct Lock
{
    Lock() { if (lock_depth++ == 0) while (__sync_lock_test_and_set(&lock_, 1)) {} }
    ~Lock() { if (--lock_depth == 0) __sync_lock_release(&lock_); }
};

static void bad(const char *why, int kind, uint64_t size)
{
    if (mem.bad++ == 0)
    {
        int s = scope;
        scope = 0;
        mem.why = std::string(why) + " (kind " + std::to_string(kind) + ", size " + std::to_string(size) + ")";
        scope = s;
    }
}
static void event(char op, int id, int kind, uint64_t size)
{
    if (mem.log && mem.events)
    {
        int s = scope;
        scope = 0;
        mem.events->push_back(Event{op, id, kind, size});
        scope = s;
    }
}
static void note_peak()
{
    if (mem.live_bytes > mem.peak_bytes) mem.peak_bytes = mem.live_bytes;
    if (mem.peaks && mem.live_bytes > mem.peak[mem.peaks - 1]) mem.peak[mem.peaks - 1] = mem.live_bytes;
}
void peak_event(int);
void width_event(int width) { event('w', width, 0, 0); peak_event(-1); }
// a new stretch of the record of peaks begins
void peak_event(int id)
{
    if (!mem.exact || mem.peaks == 8) return;
    mem.peak_ids[mem.peaks] = id;
    mem.peak[mem.peaks++] = mem.live_bytes;
}

static void fill(uint8_t *p, size_t n)
{
    if (mem.fill < 0 || n > (64u << 20)) return;
    if (mem.fill < 256) { memset(p, mem.fill, n); return; }
    for (size_t i = 0; i < n; ++i)
    {
        rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
        p[i] = (uint8_t)(rnd >> 24);
    }
}

static void *allocate(size_t n, int kind, size_t cap = 0)
{
    bool in = scope > 0;
    if (in && mem.yield) mem.yield();
    if (in)
    {
        Lock l;
        if (mem.limit && n > mem.limit) return nullptr;
        if (mem.fail_at >= 0 && mem.allocs == mem.fail_at) { ++mem.allocs; return nullptr; }
    }
    if (n > SIZE_MAX - sizeof(Hdr) - TAIL) return nullptr;
    if (cap < n) cap = n;
    Hdr *h = (Hdr *)__libc_malloc(cap + sizeof(Hdr) + TAIL);
    if (!h) return nullptr;
    h->magic = LIVE;
    h->size = n;
    h->cap = cap;
    h->kind = kind;
    h->pad = (uint64_t)h;
    h->id = -1;
    uint8_t *p = (uint8_t *)(h + 1);
    memset(p + n, 0xC3, TAIL);
    if (in)
    {
        Lock l;
        fill(p, n);
        h->id = next_id++;
        ++mem.allocs;
        ++mem.live;
        mem.live_bytes += n;
        if (mem.exact && n == mem.rows_size && kind == K_NEWA) peak_event(h->id);
        note_peak();
        event('a', h->id, kind, n);
        fine_block(p, n);
    }
    return p;
}

static bool tail_ok(Hdr *h)
{
    uint8_t *t = (uint8_t *)(h + 1) + h->size;
    for (size_t i = 0; i < TAIL; ++i)
        if (t[i] != 0xC3) return false;
    return true;
}
bool check_block(void *p)
{
    Hdr *h = (Hdr *)p - 1;
    return h->magic == LIVE && tail_ok(h);
}
int kind_of(void *p)
{
    Hdr *h = (Hdr *)p - 1;
    return h->magic == LIVE ? h->kind : 0;
}

int id_of(void *p)
{
    Hdr *h = (Hdr *)p - 1;
    return h->magic == LIVE ? h->id : -1;
}

static void release(void *p, int kind)
{
    if (!p) return;
    bool in = scope > 0;
    if (in && mem.yield) mem.yield();
    if (p == mem.text && mem.text != nullptr)
    { // the text handed over: its pages become inaccessible
        Lock l;
        ++mem.text_freed;
        fine_text_gone();
        if (kind != K_MALLOC) bad("text released with the wrong operation", kind, 0);
        event('t', mem.text_freed, kind, 0);
        if (mem.text_page && mem.text_freed == 1)
            mprotect((void *)((uintptr_t)p & ~4095UL), mem.text_page, PROT_NONE);
        return;
    }
    Hdr *h = (Hdr *)p - 1;
    if (((uintptr_t)p & 15) != 0 || (h->magic != LIVE))
    {
        Lock l;
        if (((uintptr_t)p & 15) == 0 && h->magic == DEAD) { bad("released twice", kind, h->size); event('x', h->id, kind, 0); }
        else { bad("released a pointer that is not a block", kind, 0); event('x', -1, kind, 0); }
        return;
    }
    Lock l;
    if (h->kind != kind) { bad("released with the wrong operation", h->kind * 10 + kind, h->size); }
    if (!tail_ok(h)) bad("written past the end", h->kind, h->size);
    if (h->id >= 0)
    {
        --mem.live;
        mem.live_bytes -= h->size;
        event('f', h->id, kind, h->size);
        fine_unblock(p);
    }
    if (in)
    {
        h->magic = DEAD;
        if (mem.poison && h->size < (16u << 20))
        {
            memset(h + 1, 0xDD, h->size);
            if (qn == qcap)
            {
                size_t nc = qcap ? 2 * qcap : 4096;
                Quarantined *nq = (Quarantined *)__libc_malloc(nc * sizeof(Quarantined));
                if (qn) memcpy(nq, quarantine, qn * sizeof(Quarantined));
                __libc_free(quarantine);
                quarantine = nq;
                qcap = nc;
            }
            if (qbytes < (256u << 20))
            {
                quarantine[qn++].h = h;
                qbytes += h->size;
                return;
            }
        }
    }
    h->magic = 0;
    __libc_free((void *)h->pad);
}

static bool grow(Hdr *h, size_t n)
{
    if (mem.yield) mem.yield();
    Lock l;
    if (mem.limit && n > mem.limit) return false;
    if (mem.fail_at >= 0 && mem.allocs == mem.fail_at) { ++mem.allocs; return false; }
    if (!tail_ok(h)) bad("written past the end", h->kind, h->size);
    event('f', h->id, K_MALLOC, h->size);
    mem.live_bytes += n;
    mem.live_bytes -= h->size;
    note_peak();
    uint8_t *p = (uint8_t *)(h + 1);
    if (n > h->size) fill(p + h->size, n - h->size);
    h->size = n;
    h->id = next_id++;
    ++mem.allocs;
    memset(p + n, 0xC3, TAIL);
    event('a', h->id, K_MALLOC, n);
    fine_unblock(p);
    fine_block(p, n);
    return true;
}

void mem_reset()
{
    int s = scope;
    scope = 0;
    {
        Lock l;
        for (size_t i = 0; i < qn; ++i)
        {
            Hdr *h = quarantine[i].h;
            uint8_t *p = (uint8_t *)(h + 1);
            (void)p;
            h->magic = 0;
            __libc_free((void *)h->pad);
        }
        qn = 0;
        qbytes = 0;
    }
    mem = Mem();
    next_id = 0;
    rnd = 88172645463325252ULL;
    scope = s;
}
} // namespace hx

using namespace hx;

extern "C"
{
void *malloc(size_t n)
{
    if (in_scope() && fault.what == Fault::MALLOC_T && !fault.hit && n >= fault.bytes)
    {
        fault.hit = true;
        errno = ENOMEM;
        return nullptr;
    }
    void *p = allocate(n, K_MALLOC);
    if (!p) errno = ENOMEM;
    return p;
}
void free(void *p) { release(p, K_MALLOC); }
void *calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void *p = allocate(n, K_MALLOC);
    if (p) memset(p, 0, n);
    else errno = ENOMEM;
    return p;
}
void *realloc(void *p, size_t n)
{
    if (!p) return malloc(n);
    if (p == mem.text)
    {
        void *q = malloc(n);
        if (q) { memcpy(q, p, n < mem.text_size ? n : mem.text_size); release(p, K_MALLOC); }
        return q;
    }
    Hdr *h = (Hdr *)p - 1;
    if (h->magic != LIVE)
    {
        release(p, K_MALLOC); // reports it
        return malloc(n);
    }
    if (n == 0) { release(p, K_MALLOC); return nullptr; }
    // a block always moves while it is small, and now and then when it is large
    static unsigned calls = 0;
    bool large = in_scope() && n >= (16u << 10);
    if (large && n <= h->cap && ++calls % 64 != 0 && h->kind == K_MALLOC && h->id >= 0 && p != mem.text)
    {
        if (!grow(h, n)) { errno = ENOMEM; return nullptr; }
        return p;
    }
    void *q;
    if (mem.exact)
    { // the library never holds both blocks
        uint64_t old = h->id >= 0 ? h->size : 0;
        { Lock l; mem.live_bytes -= old; }
        q = allocate(n, K_MALLOC, large ? 2 * n : 0);
        { Lock l; mem.live_bytes += old; }
    }
    else q = allocate(n, K_MALLOC, large ? 2 * n : 0);
    if (!q) { errno = ENOMEM; return nullptr; }
    memcpy(q, p, h->size < n ? h->size : n);
    release(p, K_MALLOC);
    return q;
}
void *memalign(size_t al, size_t n)
{
    if (al <= 16) return malloc(n);
    // over-aligned blocks get their header directly in front
    uint8_t *raw = (uint8_t *)__libc_malloc(n + sizeof(Hdr) + TAIL + al);
    if (!raw) return nullptr;
    uint8_t *u = (uint8_t *)(((uintptr_t)raw + sizeof(Hdr) + al - 1) & ~(uintptr_t)(al - 1));
    Hdr *h = (Hdr *)u - 1;
    h->size = n;
    h->magic = LIVE;
    h->cap = n;
    h->pad = (uint64_t)raw;
    h->kind = K_MALLOC;
    h->id = -1;
    memset(u + n, 0xC3, TAIL);
    return u;
}
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n)
{
    *p = memalign(al, n);
    return *p ? 0 : ENOMEM;
}
void *valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void *p) { return p ? ((Hdr *)p - 1)->size : 0; }
} // extern "C"

static void *new_or_throw(size_t n, int kind)
{
    void *p = allocate(n ? n : 1, kind);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return new_or_throw(n, K_NEW); }
void *operator new[](size_t n) { return new_or_throw(n, K_NEWA); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocate(n ? n : 1, K_NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocate(n ? n : 1, K_NEWA); }
void operator delete(void *p) noexcept { release(p, K_NEW); }
void operator delete[](void *p) noexcept { release(p, K_NEWA); }
void operator delete(void *p, size_t) noexcept { release(p, K_NEW); }
void operator delete[](void *p, size_t) noexcept { release(p, K_NEWA); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p, K_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p, K_NEWA); }

// ------------------------------------------------------------------ stdio
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

static int REAL_FLUSH(FILE *f)
{
    static auto real = (int (*)(FILE *))dlsym(RTLD_NEXT, "fflush");
    return real(f);
}
static bool hit(Fault::What w)
{
    if (!in_scope() || fault.what != w || fault.hit) return false;
    if (fault.nth-- > 0) return false;
    fault.hit = true;
    return true;
}
static void io_point()
{
    if (!in_scope()) return;
    ++io_calls;
    if (mem.yield) mem.yield();
}

extern "C"
{
FILE *fopen(const char *path, const char *mode)
{
    REAL(fopen);
    io_point();
    bool w = mode && mode[0] != 'r';
    if (hit(w ? Fault::FOPEN_W : Fault::FOPEN_R)) { errno = EMFILE; return nullptr; }
    return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }

size_t fread(void *p, size_t s, size_t n, FILE *f)
{
    REAL(fread);
    io_point();
    fine_range(p, s * n, true);
    if (hit(Fault::FREAD_TRUNC))
    { // the file shrinks, and nothing beyond its end has been read ahead
        REAL_FLUSH(f);
        if (truncate(fault.path.c_str(), (off_t)fault.bytes) != 0) fault.hit = false;
    }
    if (hit(Fault::FREAD_SHORT))
    {
        size_t want = (size_t)fault.bytes / (s ? s : 1);
        if (want > n) want = n;
        size_t got = want ? real(p, s, want, f) : 0;
        errno = EIO;
        return got;
    }
    return real(p, s, n, f);
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    REAL(fwrite);
    if (in_scope() && capture_header)
    {
        const char *c = (const char *)p;
        for (size_t i = 0; i < s * n && captured.size() < 8; ++i) captured.push_back(c[i]);
        if (captured.size() >= 8) captured_cb();
        return n;
    }
    io_point();
    fine_range(p, s * n, false);
    if (hit(Fault::FWRITE_SHORT))
    {
        size_t want = (size_t)fault.bytes / (s ? s : 1);
        if (want >= n) want = n ? n - 1 : 0;
        size_t got = want ? real(p, s, want, f) : 0;
        errno = ENOSPC;
        return got;
    }
    return real(p, s, n, f);
}
int fseek(FILE *f, long off, int wh)
{
    REAL(fseek);
    io_point();
    if (hit(Fault::FSEEK)) { errno = ESPIPE; return -1; }
    return real(f, off, wh);
}
long ftell(FILE *f)
{
    REAL(ftell);
    io_point();
    if (hit(Fault::FTELL)) { errno = ESPIPE; return -1; }
    return real(f);
}
int fflush(FILE *f)
{
    REAL(fflush);
    if (in_scope() && f && f != stdout && f != stderr)
    {
        io_point();
        if (hit(Fault::FFLUSH)) { errno = ENOSPC; return EOF; }
    }
    return real(f);
}
int fclose(FILE *f)
{
    REAL(fclose);
    io_point();
    bool w = false;
    if (in_scope())
    {
        int s = f->_flags;
        w = (s & 0x0008) == 0; // _IO_NO_WRITES clear: opened for writing
    }
    if (in_scope() && hit(w ? Fault::FCLOSE_W : Fault::FCLOSE_R))
    {
        real(f);
        struct stat st; // bytes are lost with it
        if (w && !fault.path.empty() && stat(fault.path.c_str(), &st) == 0)
        {
            off_t keep = st.st_size > (off_t)fault.bytes ? st.st_size - (off_t)fault.bytes : 0;
            if (truncate(fault.path.c_str(), keep) != 0) {}
        }
        errno = EIO;
        return EOF;
    }
    return real(f);
}
} // extern "C"
#endif
