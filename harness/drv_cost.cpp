// Driver modes for what a transform costs: the memory it holds, the work it does.
#include "drv.hpp"
#include "gen.hpp"
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
#include <malloc.h>
#include <map>
#include <set>
#include "flbwt.hpp"
#include "hashtable.hpp"
#include "queue.hpp"
#include "induce40bit.hpp"
#include "induce48bit.hpp"
#include "induce56bit.hpp"
#include "induce64bit.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"
#include "utility.hpp"
using namespace hx;
using std::string;
using std::to_string;
using std::vector;
extern uint64_t force_max;
extern thread_local int seen_width;
static const uint64_t WIDE[] = {0, (1ULL << 31) + 5, (1ULL << 39) + 5, (1ULL << 47) + 5, (1ULL << 55) + 5};

// ---------------------------------------------------------------- texts with something to them
static vector<std::pair<string, Text>> cost_texts(size_t n, uint64_t seed)
{
    vector<std::pair<string, Text>> v;
    Rng r(seed);
    auto add = [&](const char *name, Text t) { t.resize(n); v.push_back({name, t}); };
    { // few S* suffixes, each with a long way to go
        Text t;
        for (int k = 0; k < 8; ++k) { t.push_back(98); t.insert(t.end(), n / 8 - 1, 97); }
        while (t.size() < n) t.push_back(98);
        add("b a^k b a^k", t);
    }
    { // the same, in the other pass
        Text t;
        for (int k = 0; k < 8; ++k) { t.push_back(1); t.insert(t.end(), n / 8 - 1, 7); }
        while (t.size() < n) t.push_back(1);
        add("a b^k a b^k", t);
    }
    { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = (uint8_t)(i * 256 / n); add("increasing", t); }
    { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = (uint8_t)(255 - i * 256 / n); add("decreasing", t); }
    add("unary", Text(n, 65));
    { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = i % 2 ? 9 : 3; add("alternating", t); }
    add("fibonacci", fibonacci(n, 97, 98));
    { // words
        vector<Text> w;
        for (int k = 0; k < 700; ++k) w.push_back(random_text(r, 3 + r.below(8), {97, 99, 101, 103, 105, 111, 115, 116}));
        Text t;
        while (t.size() < n) { const Text &x = w[r.below(w.size())]; t.insert(t.end(), x.begin(), x.end()); t.push_back(32); }
        add("words", t);
    }
    add("two letters at random", random_text(r, n, {0, 255}));
    { // many names, few different substrings
        Text t;
        while (t.size() < n) { t.push_back(1); t.push_back((uint8_t)(2 + r.below(60))); t.push_back((uint8_t)(70 + r.below(20))); }
        add("triples", t);
    }
    { // runs
        Text t;
        while (t.size() < n) t.insert(t.end(), 1 + r.below(300), (uint8_t)(r.below(5) * 60));
        add("runs", t);
    }
    add("period 1000", [&]() { Text p = random_text(r, 1000, {5, 6, 7, 200}), t(n); for (size_t i = 0; i < n; ++i) t[i] = p[i % 1000]; return t; }());
    return v;
}
static vector<size_t> stars(const Text &t)
{
    size_t n = t.size();
    vector<char> s(n + 1);
    s[n] = 1;
    for (size_t i = n; i-- > 0;) s[i] = i + 1 == n ? 0 : t[i] < t[i + 1] ? 1 : t[i] > t[i + 1] ? 0 : s[i + 1];
    vector<size_t> p;
    for (size_t i = 1; i < n; ++i) if (s[i] && !s[i - 1]) p.push_back(i);
    return p;
}

// ---------------------------------------------------------------- memory held
static void one_space(const Args &A, const string &name, const Text &t, int wide, bool give, bool file, string &o)
{
    size_t n = t.size();
    vector<size_t> st = stars(t);
    std::set<string> different;
    string all((const char *)t.data(), n);
    all.push_back('\0');
    uint64_t chars = 0;
    for (size_t k = 0; k < st.size(); ++k)
        if (different.insert(all.substr(st[k], (k + 1 < st.size() ? st[k + 1] : n) - st[k] + 1)).second) chars += (k + 1 < st.size() ? st[k + 1] : n) - st[k] + 1;
    std::set<uint8_t> sigma(t.begin(), t.end());
    // the first stages by themselves
    uint8_t *T = (uint8_t *)malloc(n + 1);
    memcpy(T, t.data(), n);
    T[n] = 0;
    mem_reset();
    mem.exact = true;
    mem.poison = false;
    flbwt::Container *c = LIB(flbwt::extract_LMS_strings(T, n));
    uint64_t found = mem.live_bytes;
    uint8_t **S = LIB(flbwt::sort_LMS_strings(T, c));
    uint64_t named = mem.live_bytes;
    flbwt::PackedArray *T1 = LIB(flbwt::create_shortened_string(T, n, c));
    uint64_t shortened = mem.live_bytes;
    uint64_t stages = mem.peak_bytes;
    LIBV(delete T1);
    LIBV(free(S));
    LIBV(delete c);
    // the whole, twice: first to know the size of the block that holds the rows
    uint64_t rows = 0;
    uint64_t p1 = 0, p2 = 0, p3 = 0, left = 0;
    int threw = 0, known = 0;
    string in = A.dir + "/space" + to_string(getpid()) + ".in", out = A.dir + "/space" + to_string(getpid()) + ".out";
    if (file)
    {
        FILE *f = fopen(in.c_str(), "wb");
        if (!f || fwrite(t.data(), 1, n, f) != n) _exit(95);
        fclose(f);
    }
    for (int k = file ? 1 : 0; k < 2; ++k)
    {
        uint8_t *X = (uint8_t *)malloc(n + 1);
        memcpy(X, t.data(), n);
        X[n] = 0;
        mem_reset();
        mem.exact = true;
        mem.poison = false;
        mem.rows_size = file ? n + 1 : rows;
        peak_event(-2);
        force_max = WIDE[wide];
        flbwt::BWT_result *b = nullptr;
        enter();
        try
        {
            if (file) flbwt::bwt_file(in.c_str(), out.c_str());
            else b = flbwt::bwt_string(X, n, give);
        }
        catch (...) { threw = 1; }
        leave();
        force_max = 0;
        left = mem.live_bytes;
        // where the rows came
        int at = mem.peaks;
        if (b && b->BWT)
        {
            for (int q = 0; q < mem.peaks; ++q)
                if (mem.peak_ids[q] >= 0 && mem.peak_ids[q] == id_of(b->BWT)) at = q;
            rows = malloc_usable_size(b->BWT);
        }
        if (file)
            for (int q = 2; q < mem.peaks; ++q) at = q;
        known = at < mem.peaks;
        int w = 1;
        while (w < mem.peaks && mem.peak_ids[w] != -1) ++w;
        p1 = p2 = p3 = 0;
        for (int q = 0; q < mem.peaks; ++q)
        {
            uint64_t &p = q < w ? p1 : q < at ? p2 : p3;
            p = std::max(p, mem.peak[q]);
        }
        if (b) { delete[] b->BWT; free(b); }
        if (!file && !give) free(X);
        if (file) free(X);
    }
    unlink(in.c_str());
    unlink(out.c_str());
    o += "{\"ev\":\"space\",\"name\":\"" + name + "\",\"file\":" + to_string(file) + ",\"give\":" + to_string(give) + ",\"threw\":" + to_string(threw) + ",\"rows\":" + to_string(known) +
         ",\"d\":{\"n\":" + to_string(n) + ",\"sigma\":" + to_string(sigma.size()) + ",\"nsub\":" + to_string(st.size()) + ",\"uniq\":" + to_string(different.size()) + ",\"chars\":" + to_string(chars) +
         ",\"head\":" + to_string(st.empty() ? n : st[0]) + ",\"width\":" + to_string(seen_width) + "}" +
         ",\"found\":" + to_string(found) + ",\"named\":" + to_string(named) + ",\"shortened\":" + to_string(shortened) + ",\"stages\":" + to_string(stages) +
         ",\"p1\":" + to_string(p1) + ",\"p2\":" + to_string(p2) + ",\"p3\":" + to_string(p3) + ",\"left\":" + to_string(left) + "}\n";
    free(T);
    mem_reset();
}
void mode_space(const Args &A, vector<Case> &cs)
{
    size_t names = cost_texts(64, 1).size();
    for (size_t n : A.thorough ? vector<size_t>{70000, 1000000, 6000000} : vector<size_t>{1000000})
        for (size_t k = 0; k < names; ++k)
            for (int w = 0; w < 5; ++w)
                for (int give = 0; give < 3; ++give)
                    cs.push_back({"{\"space\":" + to_string(k) + ",\"n\":" + to_string(n) + "}", [=, &A](string &o) {
                                      auto v = cost_texts(n, A.seed + k);
                                      one_space(A, v[k].first, v[k].second, w, give > 0, give == 2, o);
                                  }, 120});
}

// ---------------------------------------------------------------- work done
static uint64_t counted(std::function<void()> f, const uint8_t *T = nullptr, size_t n = 0)
{
    fine_thread(0);
    if (T) fine_text(T, n, T, T + n + 1);
    enter();
    f();
    leave();
    return fine().accesses;
}
static uint64_t work_sais(int w, const Text &t, uint64_t fs, bool bytes)
{
    vector<uint32_t> x;
    for (auto c : t) x.push_back(c + 1u);
    x.push_back(0);
    if (!bytes)
    { // ranks of pairs: large names
        std::set<uint32_t> all;
        vector<uint32_t> y;
        for (size_t i = 0; i + 1 < x.size(); i += 2) y.push_back(1 + x[i] * 257 + x[i + 1]);
        all.insert(y.begin(), y.end());
        std::map<uint32_t, uint32_t> rank;
        uint32_t k = 1;
        for (auto v : all) rank[v] = k++;
        for (auto &v : y) v = rank[v];
        y.push_back(0);
        x = y;
    }
    size_t m = x.size();
    uint32_t mx = *std::max_element(x.begin(), x.end());
    int cs = 32 - __builtin_clz(mx);
    mem_reset();
    fine_thread(0); // the blocks belong to the transform
    flbwt::PackedArray *P = LIB(new flbwt::PackedArray(m + 1, (uint8_t)cs));
    P->set_value(0, 0);
    for (size_t i = 0; i < m; ++i) P->set_value(i + 1, x[i]);
    const uint8_t *T = (const uint8_t *)P->get_raw_arr_pointer();
    size_t cap = m + fs;
    enter();
    int64_t *a64 = new int64_t[cap];
    int32_t *a32 = new int32_t[cap];
    uint32_t *l = new uint32_t[cap];
    uint16_t *m16 = new uint16_t[cap];
    int16_t *u16 = new int16_t[cap];
    int8_t *u8 = new int8_t[cap];
    leave();
    uint64_t a = counted([&]() {
        if (w == 32) flbwt::sais_32bit(T, a32, fs, m, mx + 1, (uint8_t)cs);
        if (w == 40) flbwt::sais_40bit(T, NULL, NULL, l, u8, fs, m, mx + 1, (uint8_t)cs);
        if (w == 48) flbwt::sais_48bit(T, NULL, NULL, l, u16, fs, m, mx + 1, (uint8_t)cs);
        if (w == 56) flbwt::sais_56bit(T, NULL, NULL, NULL, l, m16, u8, fs, m, mx + 1, (uint8_t)cs);
        if (w == 64) flbwt::sais_64bit(T, a64, fs, m, mx + 1, (uint8_t)cs);
    });
    delete[] a64; delete[] a32; delete[] l; delete[] m16; delete[] u16; delete[] u8;
    LIBV(delete P);
    mem_reset();
    return a;
}
// all stages: decomposition, naming, shortening, the rest
static vector<uint64_t> work_stages(const Text &t, int wide)
{
    size_t n = t.size();
    vector<uint64_t> v;
    uint8_t *T = (uint8_t *)malloc(n + 1);
    memcpy(T, t.data(), n);
    T[n] = 0;
    mem_reset();
    mem.poison = false;
    flbwt::Container *c = nullptr;
    uint8_t **S = nullptr;
    flbwt::PackedArray *T1 = nullptr;
    v.push_back(counted([&]() { c = flbwt::extract_LMS_strings(T, n); }, T, n));
    v.push_back(counted([&]() { S = flbwt::sort_LMS_strings(T, c); }, T, n));
    v.push_back(counted([&]() { T1 = flbwt::create_shortened_string(T, n, c); }, T, n));
    LIBV(delete T1);
    LIBV(free(S));
    LIBV(delete c);
    force_max = WIDE[wide];
    flbwt::BWT_result *b = nullptr;
    v.push_back(counted([&]() { b = flbwt::bwt_string(T, n, false); }, T, n));
    force_max = 0;
    if (b) { delete[] b->BWT; free(b); }
    free(T);
    mem_reset();
    return v;
}
// no use going on to larger texts when these are already out of proportion
static bool steep(const vector<size_t> &sizes, const vector<uint64_t> &a)
{
    size_t k = a.size();
    return k > 1 && a[k - 1] / sizes[k - 1] > 2 * (a[k - 2] / sizes[k - 2]) + 50;
}
static void report_work(const string &what, const string &name, const vector<size_t> &sizes, const vector<uint64_t> &acc, string &o)
{
    vector<size_t> tried(sizes.begin(), sizes.begin() + (long)acc.size());
    o += "{\"ev\":\"work\",\"what\":\"" + what + "\",\"name\":\"" + name + "\",\"sizes\":" + nums(tried) + ",\"accesses\":" + nums(acc) + "}\n";
}
static uint64_t work_queue(int how, size_t n)
{
    mem_reset();
    mem.poison = false;
    fine_thread(0);
    uint64_t a = counted([&]() {
        flbwt::Queue q(12);
        for (size_t i = 0; i < n; ++i)
            if (how == 0) q.enqueue(i & 4095);
            else q.enqueue_l(i & 4095);
        while (!q.is_empty()) q.dequeue();
    });
    mem_reset();
    return a;
}
void mode_work(const Args &A, vector<Case> &cs)
{
    if (!fine_available()) return;
    size_t names = cost_texts(64, 1).size();
    vector<size_t> sizes = A.thorough ? vector<size_t>{4000, 32000, 256000, 2000000} : vector<size_t>{4000, 32000, 256000};
    for (int how = 0; how < 2; ++how)
        cs.push_back({"{\"work of queue\":" + to_string(how) + "}", [=](string &o) {
                          vector<size_t> sizes = {500000, 48000000};
                          vector<uint64_t> a;
                          for (auto n : sizes) a.push_back(work_queue(how, n));
                          report_work(how ? "queue filled from the front" : "queue", "", sizes, a, o);
                      }});
    for (size_t k = 0; k < names; ++k)
    {
        for (int w : {32, 40, 48, 56, 64})
            for (int how = 0; how < 3; ++how)
                cs.push_back({"{\"work of sais\":" + to_string(w) + ",\"text\":" + to_string(k) + "}", [=, &A](string &o) {
                                  vector<uint64_t> a;
                                  string name;
                                  for (auto n : sizes)
                                  {
                                      if (steep(sizes, a)) break;
                                      auto v = cost_texts(n, A.seed + k);
                                      name = v[k].first;
                                      a.push_back(work_sais(w, v[k].second, how == 1 ? n : 0, how < 2));
                                  }
                                  report_work("sais" + to_string(w) + (how == 1 ? " with room" : how == 2 ? " of pairs" : ""), name, sizes, a, o);
                              }});
        for (int wide = 0; wide < 5; ++wide)
            cs.push_back({"{\"work of all\":" + to_string(wide) + ",\"text\":" + to_string(k) + "}", [=, &A](string &o) {
                              vector<vector<uint64_t>> a(4);
                              string name;
                              for (auto n : sizes)
                              {
                                  if (steep(sizes, a[0]) || steep(sizes, a[1]) || steep(sizes, a[2]) || steep(sizes, a[3])) break;
                                  auto v = cost_texts(n, A.seed + k);
                                  name = v[k].first;
                                  auto s = work_stages(v[k].second, wide);
                                  for (int x = 0; x < 4; ++x) a[(size_t)x].push_back(s[(size_t)x]);
                              }
                              static const char *what[] = {"decomposition", "naming", "shortening", "transform"};
                              for (int x = 0; x < 4; ++x)
                                  if (x == 3 || wide == 0) report_work(what[x] + (x == 3 ? to_string(seen_width) : string()), name, sizes, a[(size_t)x], o);
                          }});
    }
}
