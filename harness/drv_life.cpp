// Driver modes for ownership and isolation: who holds the text, what a transform
// acquires and releases, several transforms in one process.
#include "drv.hpp"
#include "gen.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <thread>
#include "flbwt.hpp"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
using namespace hx;
using std::string;
using std::to_string;
using std::vector;
extern uint64_t force_max;

static const uint64_t WIDE[] = {0, (1ULL << 31) + 5, (1ULL << 39) + 5, (1ULL << 47) + 5, (1ULL << 55) + 5};
static string hexes(const Text &t) { return "\"n\":" + to_string(t.size()) + ",\"hex\":\"" + hex(t.data(), std::min<size_t>(t.size(), 48)) + "\""; }
static string witness(const Text &t)
{
    Witness w(t);
    return "\"T\":" + arr(t.data(), t.size()) + ",\"sa\":" + nums(w.sa) + ",\"isa\":" + nums(w.isa);
}
static void drop(flbwt::BWT_result *b)
{
    if (!b) return;
    delete[] b->BWT;
    free(b);
}
struct Res
{
    int64_t last = -1;
    vector<uint8_t> rows;
    bool operator==(const Res &o) const { return last == o.last && rows == o.rows; }
    string json() const { return "[" + to_string(last) + "," + arr(rows.data(), rows.size()) + "]"; }
};
static Res take(flbwt::BWT_result *b, size_t n)
{
    Res r;
    if (!b || !b->BWT) return r;
    r.last = b->last > 2000000000ULL ? -2 : (int64_t)b->last;
    r.rows.assign(b->BWT, b->BWT + n + 1);
    if (r.last >= 0 && r.last <= (int64_t)n) r.rows[(size_t)r.last] = 0; // the end marker's row holds anything
    return r;
}
static string clean(string s)
{
    for (auto &c : s) if (c == '"' || c == '\\' || (unsigned char)c < 32) c = '\'';
    return s;
}

// ---------------------------------------------------------------- the caller's text
static void one_own(const Text &t, int wide, string &o)
{
    size_t n = t.size(), page = 4096, pages = (n + 1 + page - 1) / page * page;
    string runs;
    Res first;
    bool have = false;
    for (int k = 0; k < 4; ++k)
    {
        bool give = k % 2, at_end = k / 2 == 0;
        uint8_t *lo = nullptr, *T = nullptr;
        mem_reset();
        mem.fill = k == 0 ? 0 : k == 1 ? 255 : 256;
        vector<Event> ev;
        mem.events = &ev;
        mem.log = true;
        bool guarded = interposed();
        if (guarded)
        {
            lo = (uint8_t *)mmap(NULL, pages + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (lo == MAP_FAILED) _exit(95);
            memset(lo, 0x5A, pages + 2 * page);
            T = at_end ? lo + page + pages - (n + 1) : lo + page;
            memcpy(T, t.data(), n);
            T[n] = 0;
            mem.text = T;
            mem.text_size = n + 1;
            if (!fine_available())
            {
                mprotect(lo, page, PROT_NONE);
                mprotect(lo + page + pages, page, PROT_NONE);
                mprotect(lo + page, pages, PROT_READ);
                mem.text_page = pages;
            }
        }
        else
        { // the sanitizer watches an exact block
            T = (uint8_t *)malloc(n + 1);
            memcpy(T, t.data(), n);
            T[n] = 0;
        }
        fine_thread(0);
        if (guarded) fine_text(T, n, lo, lo + pages + 2 * page);
        force_max = WIDE[wide];
        flbwt::BWT_result *b = nullptr;
        int threw = 0;
        enter();
        try { b = flbwt::bwt_string(T, n, give); } catch (...) { threw = 1; }
        leave();
        force_max = 0;
        Res r = take(b, n);
        if (!have) { first = r; have = true; }
        string ops;
        if (guarded)
        {
            for (auto &e : ev)
                if (e.op == 't' || e.op == 'w') ops += string(ops.empty() ? "" : ",") + (e.op == 't' ? "4" : "3");
        }
        bool gone = give;
#if defined(__SANITIZE_ADDRESS__)
        gone = __asan_address_is_poisoned(T);
        if (gone) ops = "4";
#endif
        bool intact = true;
        if (guarded && fine_available() == false && mem.text_freed) mprotect(lo + page, pages, PROT_READ);
        if (guarded || !gone) intact = memcmp(T, t.data(), n) == 0 && T[n] == 0;
        if (fine_available())
        { // nothing around the text was written either
            for (size_t i = 0; i < pages + 2 * page; ++i)
                if ((lo + i < T || lo + i > T + n) && lo[i] != 0x5A) intact = false;
        }
        Fine &f = fine();
        runs += string(k ? "," : "") + "{\"give\":" + to_string(give) + ",\"eq\":" + to_string(r == first && !threw) + ",\"intact\":" + to_string(intact) + ",\"ops\":[" + ops + "],\"outside\":" + to_string(f.outside) +
                ",\"written\":" + to_string(f.written) + ",\"late\":" + to_string(f.late) + ",\"bad\":" + to_string(mem.bad) + "}";
        drop(b);
        mem.text = nullptr;
        if (guarded) munmap(lo, pages + 2 * page);
        else if (!gone) free(T);
        mem.events = nullptr;
        mem.log = false;
    }
    fine_thread(-1);
    mem_reset();
    o += "{\"ev\":\"own\"," + witness(t) + ",\"wide\":" + to_string(wide) + ",\"res\":" + first.json() + ",\"runs\":[" + runs + "]}\n";
}
typedef std::function<void(const Text &, int, string &)> TextAndWidth;
static void texts(const Args &A, vector<Case> &cs, TextAndWidth f, int tiny2, int tiny3, const vector<std::pair<size_t, int>> &sizes)
{
    for (int k = 2; k <= 3; ++k)
        for (int n = 1; n <= (k == 2 ? tiny2 : tiny3); ++n)
            for (uint64_t from = 0; from < power((uint64_t)k, n); from += 16)
                cs.push_back({"{\"tiny\":" + to_string(k) + ",\"n\":" + to_string(n) + ",\"from\":" + to_string(from) + "}", [=](string &o) {
                                  for (uint64_t c = from; c < std::min(power((uint64_t)k, n), from + 16); ++c)
                                  {
                                      Rng r(A.seed * 31 + c);
                                      vector<uint8_t> e = embedding(k, r);
                                      Text t = letters(c, k, n);
                                      for (auto &x : t) x = e[x];
                                      f(t, (int)((c + (uint64_t)n) % 5), o);
                                  }
                              }});
    for (auto &s : sizes)
        for (int k = 0; k < s.second; ++k)
            cs.push_back({"{\"family\":" + to_string(k % 20) + ",\"n\":" + to_string(s.first) + "}", [=](string &o) { f(family(k, s.first, A.seed * 77 + (uint64_t)k), (k + k / 20) % 5, o); }});
}
void mode_own(const Args &A, vector<Case> &cs)
{
    bool th = A.thorough;
    texts(A, cs, one_own, th ? 9 : 6, th ? 6 : 4, th ? vector<std::pair<size_t, int>>{{20, 100}, {60, 100}, {300, 60}, {2000, 40}, {4094, 20}, {4095, 20}, {4096, 20}, {8191, 20}, {20000, 20}, {70000, 20}, {200000, 5}}
                                                     : vector<std::pair<size_t, int>>{{20, 20}, {60, 20}, {300, 20}, {2000, 10}, {4095, 20}, {4096, 5}, {9000, 10}, {70000, 5}});
}

// ---------------------------------------------------------------- what is acquired and released
static int fds()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    if (!d) return -1;
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}
static string ops_of(const vector<Event> &ev)
{
    string s = "[";
    for (auto &e : ev)
    {
        int op = e.op == 'a' ? 1 : e.op == 'f' ? 2 : e.op == 'w' ? 3 : e.op == 't' ? 4 : 9;
        if (s.size() > 1) s += ',';
        s += "[" + to_string(op) + "," + to_string(e.id) + "," + to_string(e.kind) + "]";
    }
    return s + "]";
}
static void one_life(const Text &t, int wide, string &o)
{
    for (int give = 0; give < 2; ++give)
    {
        mem_reset();
        vector<Event> ev;
        uint8_t *T = (uint8_t *)malloc(t.size() + 1);
        memcpy(T, t.data(), t.size());
        T[t.size()] = 0;
        mem.fill = 256;
        mem.events = &ev;
        mem.log = true;
        mem.text = T;
        mem.text_size = t.size() + 1;
        force_max = WIDE[wide];
        const char *end = "return";
        flbwt::BWT_result *b = nullptr;
        int f0 = fds();
        enter();
        try { b = flbwt::bwt_string(T, t.size(), give); } catch (...) { end = "throw"; }
        leave();
        force_max = 0;
        string ops = ops_of(ev), res = "[]";
        if (b) res = "[[" + to_string(id_of(b)) + "," + to_string(kind_of(b)) + "],[" + to_string(b->BWT ? id_of(b->BWT) : -1) + "," + to_string(b->BWT ? kind_of(b->BWT) : 0) + "]]";
        int f1 = fds() - f0;
        drop(b);
        o += string("{\"ev\":\"life\",") + hexes(t) + ",\"file\":0,\"give\":" + to_string(give) + ",\"end\":\"" + end + "\",\"ops\":" + ops + ",\"result\":" + res + ",\"left\":" + to_string(mem.live) + ",\"fds\":" + to_string(f1) +
             ",\"bad\":" + to_string(mem.bad) + ",\"why\":\"" + clean(mem.why) + "\"}\n";
        mem.text = nullptr;
        mem.log = false;
        mem.events = nullptr;
        free(T);
    }
    mem_reset();
}
static void one_life_file(const Args &A, const Text &t, int how, string &o)
{
    string d = A.dir + "/l" + to_string(getpid()), in = d + "/in", out = d + "/out";
    mkdir(d.c_str(), 0777);
    {
        std::ofstream f(in, std::ios::binary);
        f.write((const char *)t.data(), (std::streamsize)t.size());
    }
    string outp = out, inp = in;
    mem_reset();
    fault = Fault();
    fault.path = out;
    switch (how)
    {
    case 1: outp = in; break;
    case 2: inp = d + "/none"; break;
    case 3: outp = d + "/none/out"; break;
    case 4: fault.what = Fault::FREAD_SHORT; fault.bytes = t.size() / 2; break;
    case 5: fault.what = Fault::FWRITE_SHORT; fault.bytes = 3; break;
    case 6: fault.what = Fault::FWRITE_SHORT; fault.nth = 1; fault.bytes = 0; break;
    case 7: fault.what = Fault::FWRITE_SHORT; fault.nth = 2; fault.bytes = 0; break;
    case 8: fault.what = Fault::FCLOSE_W; fault.bytes = 1; break;
    case 9: fault.what = Fault::FSEEK; break;
    case 10: fault.what = Fault::FTELL; break;
    case 11: fault.what = Fault::MALLOC_T; fault.bytes = t.size() + 1; break;
    case 12: fault.what = Fault::FOPEN_W; break;
    case 13: fault.what = Fault::FREAD_SHORT; fault.bytes = 0; break;
    case 14: inp = d; break;
    case 15: fault.what = Fault::FCLOSE_R; break;
    }
    vector<Event> ev;
    mem.fill = 255;
    mem.events = &ev;
    mem.log = true;
    int f0 = fds();
    const char *end = "return";
    enter();
    try { flbwt::bwt_file(inp.c_str(), outp.c_str()); } catch (...) { end = "throw"; }
    leave();
    bool oom = fault.what == Fault::MALLOC_T && fault.hit;
    // only the allocation of the text itself is made to fail: what the library asks for before anything else
    long before = 0;
    for (auto &e : ev) if (e.op == 'a') ++before;
    fault = Fault();
    mem.log = false;
    mem.events = nullptr;
    int f1 = fds() - f0;
    (void)oom;
    (void)before;
    o += string("{\"ev\":\"life\",") + hexes(t) + ",\"how\":" + to_string(how) + ",\"file\":1,\"give\":0,\"end\":\"" + end + "\",\"ops\":" + ops_of(ev) + ",\"result\":[],\"left\":" + to_string(mem.live) + ",\"fds\":" + to_string(f1) +
         ",\"bad\":" + to_string(mem.bad) + ",\"why\":\"" + clean(mem.why) + "\"}\n";
    mem_reset();
    unlink(in.c_str());
    unlink(out.c_str());
    rmdir(d.c_str());
}
void mode_life(const Args &A, vector<Case> &cs)
{
    bool th = A.thorough;
    texts(A, cs, one_life, th ? 7 : 4, th ? 5 : 3, th ? vector<std::pair<size_t, int>>{{20, 40}, {100, 40}, {1000, 40}, {5000, 20}, {20000, 10}} : vector<std::pair<size_t, int>>{{20, 15}, {100, 20}, {300, 40}, {1000, 60}, {3000, 40}});
    // recursion in the suffix sorter, with room in the array and without, at every width
    for (int k = 0; k < (th ? 400 : 60); ++k)
        for (int wide = 0; wide < 5; ++wide)
            cs.push_back({"{\"recursion\":" + to_string(k) + "}", [=](string &o) {
                              Rng r(A.seed * 333 + (uint64_t)k);
                              vector<uint8_t> al{(uint8_t)r.below(100), (uint8_t)(100 + r.below(100))};
                              if (k % 3 == 2) al.push_back((uint8_t)(200 + r.below(56)));
                              one_life(random_text(r, 200 + r.below(k % 4 == 3 ? 12000 : 2200), al), wide, o);
                          }});
    for (int how = 0; how <= 15; ++how)
        for (int k = 0; k < (th ? 60 : 4); ++k)
            cs.push_back({"{\"file\":" + to_string(how) + ",\"k\":" + to_string(k) + "}", [=, &A](string &o) { one_life_file(A, family(k + how, k == 0 ? 1 : k == 1 ? 12 : k % 2 ? 9000 : 300, A.seed + (uint64_t)k), how, o); }});
    for (int null = 0; null < 2; ++null)
        for (int give = 0; give < 2; ++give)
            cs.push_back({"{\"null\":1}", [=](string &o) {
                              mem_reset();
                              vector<Event> ev;
                              uint8_t *T = (uint8_t *)calloc(8, 1);
                              mem.text = T;
                              mem.text_size = 8;
                              mem.events = &ev;
                              mem.log = true;
                              const char *end = "return";
                              enter();
                              try { flbwt::bwt_string(null ? nullptr : T, null ? 4 : 0, give); } catch (...) { end = "throw"; }
                              leave();
                              o += string("{\"ev\":\"life\",\"n\":0,\"hex\":\"\",\"file\":0,\"give\":0,\"end\":\"") + end + "\",\"ops\":" + ops_of(ev) + ",\"result\":[],\"left\":" + to_string(mem.live) + ",\"fds\":0,\"bad\":" + to_string(mem.bad) + ",\"why\":\"\"}\n";
                              mem.text = nullptr;
                              mem.log = false;
                              mem.events = nullptr;
                              free(T);
                              mem_reset();
                          }});
}

// ---------------------------------------------------------------- several transforms
struct Job
{
    Text t;
    bool give = false, file = false;
    Res r;
    string after;  // JSON of the output file
    uint64_t statics = 0, foreign = 0, wild = 0, accesses = 0;
    vector<uint64_t> marks;
    string first, dir;
    int threw = 0;
    uint8_t *at = nullptr; // where the caller keeps its text
};
static string slurp(const string &p)
{
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return "[-1]";
    string s;
    char b[65536];
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)k);
    close(fd);
    return arr((const uint8_t *)s.data(), s.size());
}
static void prepare(Job &j)
{
    if (!j.file) return;
    mkdir(j.dir.c_str(), 0777);
    std::ofstream f(j.dir + "/in", std::ios::binary);
    f.write((const char *)j.t.data(), (std::streamsize)j.t.size());
}
static void tidy(Job &j)
{
    if (!j.file) return;
    j.after = slurp(j.dir + "/out");
    unlink((j.dir + "/in").c_str());
    unlink((j.dir + "/out").c_str());
    rmdir(j.dir.c_str());
}
static void work(Job &j, int who, bool turns)
{
    fine_thread(who);
    size_t n = j.t.size();
    uint8_t *T = nullptr;
    if (!j.file)
    {
        T = j.at && !j.give ? j.at : (uint8_t *)malloc(n + 1);
        memcpy(T, j.t.data(), n);
        T[n] = 0;
        fine_text(T, n, T, T + n + 1);
    }
    string in = j.dir + "/in", out = j.dir + "/out";
    flbwt::BWT_result *b = nullptr;
    if (turns) sched_enter(who);
    enter();
    try
    {
        if (j.file) flbwt::bwt_file(in.c_str(), out.c_str());
        else b = flbwt::bwt_string(T, n, j.give);
    }
    catch (...) { j.threw = 1; }
    leave();
    if (turns) sched_leave(who);
    Fine f = fine();
    fine_thread(-1);
    if (!j.file)
    {
        j.r = take(b, n);
        drop(b);
        if (!j.give && T != j.at) free(T);
    }
    j.statics = f.statics;
    j.foreign = f.foreign;
    j.wild = f.wild;
    j.first = f.first;
    j.accesses = f.accesses;
    j.marks = f.marks;
}
static void report(const Job &j, const char *how, string &o)
{
    o += string("{\"ev\":\"iso\",\"how\":\"") + how + "\"," + witness(j.t) + ",\"file\":" + to_string(j.file) + ",\"threw\":" + to_string(j.threw) + ",\"res\":" + j.r.json() + ",\"after\":" + (j.file ? j.after : "[]") +
         ",\"statics\":" + to_string(j.statics) + ",\"foreign\":" + to_string(j.foreign) + ",\"wild\":" + to_string(j.wild) + ",\"first\":\"" + clean(j.first) + "\"}\n";
}
static void in_thread(std::function<void()> f)
{
    std::thread t(f);
    t.join();
}
// one after the other, on memory full of what was there before
static void history(const Args &A, uint64_t seed, int count, size_t size, string &o)
{
    Rng r(seed);
    vector<uint8_t> keep(size * 2 + 2); // a caller that uses one buffer for all its texts
    Text last;
    bool keeps = seed % 3 != 0, reuse = seed % 2;
    // on one thread, which may remember things as well
    in_thread([&]() { for (int k = 0; k < count; ++k)
    {
        Job j;
        j.t = family((int)r.below(20), 1 + r.below(size), r.next());
        if (size < 50 && r.below(2)) j.t = random_text(r, 1 + r.below(size), {97, 98, 99});
        else if (!last.empty() && r.below(3) != 0)
        { // much like the one before: the same, bytes changed, cut or longer
            j.t = last;
            switch (r.below(5))
            {
            case 0: break;
            case 1: j.t[r.below(j.t.size())] ^= (uint8_t)(1 + r.below(255)); break;
            case 2: for (auto &c : j.t) c = (uint8_t)(255 - c); break;
            case 3: j.t.resize(1 + r.below(j.t.size())); break;
            default: std::reverse(j.t.begin(), j.t.end()); if (j.t.size() < 2 * size) j.t.push_back((uint8_t)r.below(256)); break;
            }
        }
        last = j.t;
        j.give = r.below(keeps ? 5 : 2) == 0;
        j.at = keeps ? keep.data() : nullptr;
        j.file = r.below(5) == 0;
        j.dir = A.dir + "/i" + to_string(getpid()) + "_" + to_string(k);
        mem_reset();
        static const int fills[] = {0, 255, 256, -1, 1, 0x5A};
        mem.fill = fills[r.below(6)];
        mem.poison = !reuse; // or blocks come back at the addresses they had
        force_max = WIDE[r.below(3) ? 0 : r.below(5)];
        if (r.below(6) == 0)
        { // a request that fails comes first
            enter();
            try { flbwt::bwt_string(nullptr, 3, false); } catch (...) {}
            try { flbwt::bwt_file((j.dir + "/none").c_str(), (j.dir + "/none2").c_str()); } catch (...) {}
            leave();
        }
        prepare(j);
        work(j, 0, false);
        tidy(j);
        force_max = 0;
        if (k == 0) { j.statics = 0; } // what is initialised once
        report(j, "history", o);
    } });
    mem_reset();
}
// every ordered pair of texts of a set, one right after the other in the same memory
static void pairs(const vector<Text> &set, size_t from, size_t to, bool give, string &o)
{
    vector<vector<Res>> got(set.size());
    vector<vector<string>> who(set.size());
    uint8_t *keep = (uint8_t *)malloc(4096);
    mem_reset();
    mem.poison = false;
    in_thread([&]() {
        auto run = [&](size_t k, size_t before) {
            const Text &t = set[k];
            size_t n = t.size();
            uint8_t *T = give ? (uint8_t *)malloc(n + 1) : keep;
            memcpy(T, t.data(), n);
            T[n] = 0;
            flbwt::BWT_result *b = nullptr;
            enter();
            try { b = flbwt::bwt_string(T, n, give); } catch (...) {}
            leave();
            Res r = take(b, n);
            drop(b);
            size_t x = 0;
            while (x < got[k].size() && !(got[k][x] == r)) ++x;
            if (x == got[k].size()) { got[k].push_back(r); who[k].push_back(hex(set[before].data(), set[before].size())); }
        };
        for (size_t y = from; y < to; ++y)
            for (size_t x = 0; x < set.size(); ++x) { run(x, y); run(y, x); }
    });
    free(keep);
    for (size_t k = 0; k < set.size(); ++k)
    {
        string rs = "[", ws = "[";
        for (size_t x = 0; x < got[k].size(); ++x) { rs += (x ? "," : "") + got[k][x].json(); ws += string(x ? "," : "") + "\"" + who[k][x] + "\""; }
        o += "{\"ev\":\"pairs\"," + witness(set[k]) + ",\"results\":" + rs + "],\"after\":" + ws + "]}\n";
    }
    mem_reset();
}
// a schedule of segments: where one transform stops, another goes on
static void interleave(const Args &A, const vector<int> &order, int segs, vector<Job> jobs, uint64_t seed, string &o)
{
    Rng r(seed);
    int n = (int)jobs.size();
    vector<vector<uint64_t>> len((size_t)n);
    for (int i = 0; i < n; ++i)
    {
        Job &j = jobs[(size_t)i];
        j.dir = A.dir + "/s" + to_string(getpid()) + "_" + to_string(i);
        Job solo = j;
        prepare(solo);
        mem_reset();
        mem.fill = 256;
        in_thread([&]() { work(solo, i, false); });
        tidy(solo);
        if (i > 0 && solo.statics) report(solo, "alone", o);
        // cut where blocks come and go, or anywhere
        vector<uint64_t> cut;
        uint64_t all = solo.accesses ? solo.accesses : 1;
        for (int k = 1; k < segs; ++k)
        {
            uint64_t c = r.below(3) && !solo.marks.empty() ? solo.marks[r.below(solo.marks.size())] + r.below(40) : r.below(all);
            cut.push_back(1 + c % all);
        }
        cut.push_back(all + 1000);
        std::sort(cut.begin(), cut.end());
        uint64_t at = 0;
        for (auto c : cut) { len[(size_t)i].push_back(c - at + (c == at)); at = c; }
    }
    Schedule s;
    vector<size_t> next((size_t)n, 0);
    for (int w : order)
    {
        size_t i = (size_t)(w - 1);
        s.push_back({(int)i, len[i][next[i]++]});
    }
    mem_reset();
    mem.fill = 256;
    for (auto &j : jobs) prepare(j);
    sched_start(s, n);
    vector<std::thread> th;
    for (int i = 0; i < n; ++i) th.emplace_back([&, i]() { work(jobs[(size_t)i], i, true); });
    for (auto &t : th) t.join();
    for (auto &j : jobs) { tidy(j); report(j, "interleaved", o); }
    mem_reset();
}
// freely in parallel
static void parallel(const Args &A, uint64_t seed, int threads, int each, size_t size, string &o)
{
    vector<vector<Job>> jobs((size_t)threads);
    Rng r(seed);
    for (int i = 0; i < threads; ++i)
        for (int k = 0; k < each; ++k)
        {
            Job j;
            j.t = family((int)r.below(20), 1 + r.below(size), r.next());
            j.give = r.below(2);
            j.file = r.below(4) == 0;
            j.dir = A.dir + "/p" + to_string(getpid()) + "_" + to_string(i) + "_" + to_string(k);
            prepare(j);
            jobs[(size_t)i].push_back(j);
        }
    mem_reset();
    mem.poison = false;
    vector<std::thread> th;
    for (int i = 0; i < threads; ++i)
        th.emplace_back([&, i]() { for (auto &j : jobs[(size_t)i]) work(j, -1, false); });
    for (auto &t : th) t.join();
    for (auto &v : jobs)
        for (auto &j : v) { tidy(j); report(j, "parallel", o); }
    mem_reset();
}
void mode_iso(const Args &A, vector<Case> &cs)
{
    bool th = A.thorough;
    string part = A.opt;
    if (part == "pairs")
    {
        vector<Text> set;
        Rng r(A.seed * 71);
        for (int n = 1; n <= 5; ++n)
            for (uint64_t c = 0; c < power(2, n); ++c) { Text t = letters(c, 2, n); for (auto &x : t) x = x ? 200 : 0; set.push_back(t); }
        while (set.size() < (th ? 1600u : 400u)) set.push_back(random_text(r, 6 + r.below(12), r.below(2) ? vector<uint8_t>{97, 98, 99} : vector<uint8_t>{0, 1, 2, 255}));
        for (size_t y = 0; y < set.size(); y += 10)
            cs.push_back({"{\"pairs\":" + to_string(y) + "}", [=](string &o) { pairs(set, y, std::min(set.size(), y + 10), y % 50 == 0, o); }});
    }
    if (part == "history")
        for (int k = 0; k < (th ? 120 : 24); ++k)
            cs.push_back({"{\"history\":" + to_string(k) + "}", [=, &A](string &o) { history(A, A.seed * 1000 + (uint64_t)k, fine_available() ? 6 : 20, k % 4 == 3 ? 3000 : 60, o); }});
    if (part == "history" && !fine_available()) // many small texts, one after the other
        for (int k = 0; k < (th ? 160 : 32); ++k)
            cs.push_back({"{\"history\":" + to_string(1000 + k) + "}", [=, &A](string &o) { history(A, A.seed * 1000 + 500 + (uint64_t)k, 150, k % 2 ? 14 : 40, o); }});
    if (part == "parallel")
        for (int k = 0; k < (th ? 60 : 16); ++k)
            cs.push_back({"{\"parallel\":" + to_string(k) + "}", [=, &A](string &o) { parallel(A, A.seed * 2000 + (uint64_t)k, k % 2 ? 8 : 3, interposed() ? 8 : 3, k % 3 == 2 ? 3000 : 200, o); }});
    if (part == "sched" && fine_available())
    {
        std::ifstream f(A.in);
        string line;
        uint64_t k = 0;
        while (std::getline(f, line))
        {
            std::istringstream ss(line);
            int segs, w, n = 0;
            vector<int> order;
            ss >> segs;
            while (ss >> w) { order.push_back(w); n = std::max(n, w); }
            ++k;
            cs.push_back({"{\"schedule\":\"" + line + "\"}", [=, &A](string &o) {
                              Rng r(A.seed * 3000 + k);
                              for (int rep = 0; rep < (A.thorough ? 12 : 2); ++rep)
                              {
                                  vector<Job> jobs((size_t)n);
                                  for (auto &j : jobs)
                                  {
                                      j.t = family((int)r.below(20), r.below(3) ? 1 + r.below(30) : 100 + r.below(600), r.next());
                                      j.give = r.below(2);
                                      j.file = r.below(4) == 0;
                                  }
                                  if (r.below(4) == 0) for (auto &j : jobs) j.t = jobs[0].t;
                                  interleave(A, order, segs, jobs, r.next(), o);
                              }
                          }});
        }
    }
}
