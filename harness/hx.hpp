// Harness support: memory and stdio interposition, case runner, JSON output.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <functional>
#include <string>
#include <vector>

namespace hx
{
// ---------------------------------------------------------------- memory
// Kinds of allocation.  Every block carries a header and a tail canary; only
// calls made between enter() and leave() on the calling thread are "in scope".
enum Kind { K_NONE = 0, K_MALLOC = 1, K_NEW = 2, K_NEWA = 3 };

struct Event { char op; int id; int kind; uint64_t size; }; // op: a(lloc) f(ree) w(idth) t(ext freed) x(bad)

struct Mem
{
    int fill = -1;             // -1: leave, 0..255: byte, 256: pseudo random
    bool log = false;          // record events
    bool move = true;          // realloc always moves
    bool poison = true;        // overwrite freed blocks and keep them out of use
    uint64_t limit = 0;        // refuse larger blocks (0: no limit)
    long fail_at = -1;         // in-scope allocation that fails (0-based)
    long allocs = 0;           // in-scope allocations so far
    long live = 0;             // in-scope allocations not yet released
    uint64_t live_bytes = 0, peak_bytes = 0;
    bool exact = false;        // a block that grows is never counted twice
    uint64_t rows_size = 0;    // new[] of this size begins a stretch
    int peaks = 0;             // the largest live_bytes of each stretch: start, width chosen, rows acquired
    uint64_t peak[8] = {};
    int peak_ids[8] = {};      // the block that began it
    int bad = 0;               // wrong releases, overwritten canaries
    std::string why;           // first of them
    void *text = nullptr;      // text handed over by the caller
    size_t text_page = 0;      // pages to protect when it is released
    size_t text_size = 0;
    int text_freed = 0;
    void (*yield)() = nullptr; // called at in-scope allocations and releases
    std::vector<Event> *events = nullptr;
};
extern Mem mem;
void enter();
void leave();
bool in_scope();
template <class F> auto lib(F f) -> decltype(f())
{
    struct S { S() { enter(); } ~S() { leave(); } } s;
    return f();
}
#define LIB(e) hx::lib([&]() { return (e); })
#define LIBV(e) hx::lib([&]() { e; })
void mem_reset();      // forget counters, events, canaries; release the quarantine
bool check_block(void *p); // canary of a live block intact
int id_of(void *p);        // event number of a live block
int kind_of(void *p);      // kind of a live block, 0 if it is none
void width_event(int width);
void peak_event(int id);
bool interposed();     // false in sanitizer builds

// ---------------------------------------------------------------- memory accesses
// In the build called "fine" every memory access of the library is seen: it is
// attributed to a block, and it is a point where another transform may go on.
#ifdef FINE
void fine_block(void *p, size_t n);
void fine_unblock(void *p);
void fine_text_gone();
void fine_range(const void *p, size_t n, bool write);
#else
inline void fine_block(void *, size_t) {}
inline void fine_unblock(void *) {}
inline void fine_text_gone() {}
inline void fine_range(const void *, size_t, bool) {}
#endif
struct Fine
{
    uint64_t accesses = 0;                    // by the library on this thread
    uint64_t written = 0, outside = 0, late = 0; // text: writes, accesses beyond it, accesses after its release
    uint64_t statics = 0, foreign = 0, wild = 0; // writes to static data, blocks of others, no block at all
    std::string first;                        // the first of the last three
    std::vector<uint64_t> marks;              // accesses made when a block came or went
};
bool fine_available();
Fine &fine();                                 // of this thread
void fine_thread(int who);                    // this thread runs transform number who
void fine_text(const uint8_t *t, size_t n, const void *lo, const void *hi);
typedef std::vector<std::pair<int, uint64_t>> Schedule; // who, how many accesses
void sched_start(const Schedule &s, int threads);
void sched_enter(int who);                    // waits for its turn
void sched_leave(int who);

// ---------------------------------------------------------------- stdio faults
struct Fault
{
    enum What { NONE, FOPEN_R, FOPEN_W, FREAD_SHORT, FREAD_TRUNC, FWRITE_SHORT, FCLOSE_R, FCLOSE_W, FSEEK, FTELL, MALLOC_T, FFLUSH } what = NONE;
    long nth = 0;        // which call of that kind
    uint64_t bytes = 0;  // how many bytes go through in that call
    bool hit = false;    // the fault really happened
    std::string path;    // FREAD_TRUNC: file to truncate
};
extern Fault fault;
extern int io_calls;    // in-scope stdio calls
// header capture: bytes the library tries to write; exits the process when 8 have come
extern bool capture_header;
extern std::string captured;
extern void (*captured_cb)();

// ---------------------------------------------------------------- output
std::string hex(const uint8_t *p, size_t n);
std::string hex64(uint64_t v);                 // 16 hex digits
std::string bytes8(uint64_t v);                // [b7,..,b0]
std::string arr(const uint8_t *p, size_t n);   // [..]
template <class T> std::string nums(const T *p, size_t n)
{
    std::string s = "[";
    for (size_t i = 0; i < n; ++i)
    {
        if (i) s += ',';
        s += std::to_string((long long)p[i]);
    }
    return s + "]";
}
template <class T> std::string nums(const std::vector<T> &v) { return nums(v.data(), v.size()); }

// ---------------------------------------------------------------- random
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
};

// ---------------------------------------------------------------- cases
struct Case
{
    std::string desc;                          // JSON object text, printed if the case crashes
    std::function<void(std::string &)> run;    // appends complete lines
    int seconds = 60;                          // CPU limit
};
// Run the cases of this shard in child processes; crashes and hangs become events; the
// cases after a hang are not run.
int run_cases(std::vector<Case> &cases, const std::string &out, int shard, int shards);
} // namespace hx
