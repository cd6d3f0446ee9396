// Driver modes for the parts: packed arrays, queues, split integers, records, dictionary.
#include "drv.hpp"
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <algorithm>
#include <map>
#include <set>
#include <fstream>
#include "hashtable.hpp"
#include "packed_array.hpp"
#include "queue.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "utility.hpp"
using namespace hx;
using std::string;
using std::to_string;
using std::vector;

static string q(const string &s) { return "\"" + s + "\""; }
static uint64_t maskw(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static string tail() // closing fields of a trace: what the memory monitor saw
{
    return ",\"bad\":" + to_string(mem.bad) + ",\"why\":" + q(mem.why) + "}\n";
}

// ------------------------------------------------------------------ packed arrays
static uint64_t pick_value(Rng &r, int w)
{
    switch (r.below(6))
    {
    case 0: return 0;
    case 1: return maskw(w);
    case 2: return 1ULL << r.below(w);
    case 3: return 0xAAAAAAAAAAAAAAAAULL & maskw(w);
    default: return r.next() & maskw(w);
    }
}

static void packed_case(int w, uint64_t n, uint64_t seed, int fillb, int nops, string &out)
{
    Rng r(seed);
    mem_reset();
    mem.fill = fillb;
    flbwt::PackedArray *a = LIB(new flbwt::PackedArray(n, (uint8_t)w));
    string ops;
    vector<char> stored(n, 0);
    auto put = [&](uint64_t i, uint64_t v) {
        LIBV(a->set_value(i, v));
        stored[i] = 1;
        ops += string(ops.empty() ? "" : ",") + "[\"s\"," + to_string(i) + ",\"" + hex64(v) + "\"]";
    };
    auto get = [&](uint64_t i) {
        ops += string(ops.empty() ? "" : ",") + "[\"g\"," + to_string(i) + ",\"" + hex64(LIB(a->get_value(i))) + "\"]";
    };
    // fill in a random order, reading back neighbours; then overwrite at random
    vector<uint64_t> order(n);
    for (uint64_t i = 0; i < n; ++i) order[i] = i;
    if (seed & 1)
        for (uint64_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (uint64_t i : order)
    {
        put(i, pick_value(r, w));
        if (i > 0 && stored[i - 1]) get(i - 1);
        if (i + 1 < n && stored[i + 1]) get(i + 1);
    }
    for (int k = 0; k < nops; ++k)
    {
        uint64_t i = r.below(n);
        put(i, pick_value(r, w));
        if (i > 0) get(i - 1);
        get(i);
        if (i + 1 < n) get(i + 1);
    }
    for (uint64_t i = 0; i < n; ++i) get(i);
    uint64_t words = (uint64_t)w * n / 64 + ((uint64_t)w * n % 64 ? 1 : 0);
    string raw = "[";
    for (uint64_t k = 0; k < words; ++k)
    {
        uint64_t v = a->get_raw_arr_pointer()[k];
        for (int b = 7; b >= 0; --b)
        {
            if (raw.size() > 1) raw += ',';
            raw += to_string((unsigned)((v >> (8 * b)) & 255));
        }
    }
    raw += "]";
    // final values as bytes, for the layout
    string fin = "[";
    for (uint64_t i = 0; i < n; ++i) fin += (i ? "," : "") + bytes8(a->get_value(i));
    fin += "]";
    uint64_t glen = a->get_length();
    int gbits = a->get_integer_bits();
    LIBV(delete a);
    out += "{\"ev\":\"packed\",\"w\":" + to_string(w) + ",\"n\":" + to_string(n) + ",\"len\":" + to_string(glen) +
           ",\"bits\":" + to_string(gbits) + ",\"ops\":[" + ops + "],\"fin\":" + fin + ",\"raw\":" + raw +
           ",\"live\":" + to_string(mem.live) + tail();
    mem_reset();
}

// every cell overwritten: ones by zeros, zeros by ones, then anything; all cells read back each time
static void packed_rewrite(int w, uint64_t n, uint64_t seed, int fillb, string &out)
{
    Rng r(seed);
    mem_reset();
    mem.fill = fillb;
    flbwt::PackedArray *a = LIB(new flbwt::PackedArray(n, (uint8_t)w));
    string ops;
    auto put = [&](uint64_t i, uint64_t v) {
        LIBV(a->set_value(i, v));
        ops += string(ops.empty() ? "" : ",") + "[\"s\"," + to_string(i) + ",\"" + hex64(v) + "\"]";
    };
    auto get = [&](uint64_t i) { ops += ",[\"g\"," + to_string(i) + ",\"" + hex64(LIB(a->get_value(i))) + "\"]"; };
    for (uint64_t i = 0; i < n; ++i) put(i, i % 2 ? 0 : maskw(w));
    for (uint64_t i = 0; i < n; ++i) get(i);
    for (int round = 0; round < 3; ++round)
        for (uint64_t i = 0; i < n; ++i)
        {
            put(i, round == 0 ? (i % 2 ? maskw(w) : 0) : round == 1 ? r.next() & maskw(w) : pick_value(r, w));
            for (uint64_t k = i < 2 ? 0 : i - 2; k < n && k <= i + 2; ++k) get(k);
        }
    for (uint64_t i = 0; i < n; ++i) get(i);
    uint64_t glen = a->get_length();
    int gbits = a->get_integer_bits();
    LIBV(delete a);
    out += "{\"ev\":\"packed\",\"w\":" + to_string(w) + ",\"n\":" + to_string(n) + ",\"len\":" + to_string(glen) +
           ",\"bits\":" + to_string(gbits) + ",\"ops\":[" + ops + "],\"fin\":[],\"raw\":[],\"live\":" + to_string(mem.live) + tail();
    mem_reset();
}

// far cells of a large array: only a few pages are ever touched
static void packed_far(int w, uint64_t n, uint64_t seed, string &out)
{
    Rng r(seed);
    mem_reset();
    mem.poison = false;
    flbwt::PackedArray *a = LIB(new flbwt::PackedArray(n, (uint8_t)w));
    if (a->get_raw_arr_pointer() == NULL) { LIBV(delete a); return; }
    string ops;
    vector<uint64_t> at;
    for (uint64_t base : {(uint64_t)0, n / 2, n - 4, ((uint64_t)1 << 32) / w, ((uint64_t)1 << 31) / w, (((uint64_t)1 << 35) + 64) / w, ((uint64_t)1 << 26)})
        for (uint64_t d = 0; d < 4; ++d)
            if (base + d < n) at.push_back(base + d);
    std::sort(at.begin(), at.end());
    at.erase(std::unique(at.begin(), at.end()), at.end());
    for (uint64_t i : at)
    {
        uint64_t v = r.next() & maskw(w);
        LIBV(a->set_value(i, v));
        ops += string(ops.empty() ? "" : ",") + "[\"s\"," + to_string(i) + ",\"" + hex64(v) + "\"]";
    }
    for (uint64_t i : at)
        ops += ",[\"g\"," + to_string(i) + ",\"" + hex64(LIB(a->get_value(i))) + "\"]";
    uint64_t glen = a->get_length();
    int gbits = a->get_integer_bits();
    LIBV(delete a);
    out += "{\"ev\":\"packed\",\"w\":" + to_string(w) + ",\"n\":" + to_string(n) + ",\"len\":" + to_string(glen) +
           ",\"bits\":" + to_string(gbits) + ",\"ops\":[" + ops + "],\"fin\":[],\"raw\":[],\"live\":" + to_string(mem.live) + tail();
    mem_reset();
}

void mode_packed(const Args &A, vector<Case> &cs)
{
    for (int w = 1; w <= 64; ++w)
    {
        auto add = [&](uint64_t n, uint64_t seed, int fillb, int nops) {
            cs.push_back({"{\"w\":" + to_string(w) + ",\"n\":" + to_string(n) + ",\"seed\":" + to_string(seed) + "}",
                          [=](string &o) { packed_case(w, n, seed, fillb, nops, o); }});
        };
        add(1, A.seed * 1000 + w, 0xFF, 4);
        add(2, A.seed * 1000 + w + 1, 0x00, 8);
        add(66, A.seed * 1000 + w * 2, 0xFF, 60);
        add(129, A.seed * 1000 + w * 2 + 1, 0xA5, 30);
        cs.push_back({"{\"rewrite\":1,\"w\":" + to_string(w) + "}", [=](string &o) {
                          for (uint64_t n = 1; n <= (A.thorough ? 66 : 9); ++n) packed_rewrite(w, n, A.seed * 99 + n, n % 2 ? 0 : 0xFF, o);
                      }});
        if (A.thorough)
            for (int k = 0; k < 6; ++k) add(1 + (w * 37 + k * 101) % 300, A.seed * 7777 + w * 10 + k, 256, 200);
        uint64_t big[] = {1ULL << 30, 134217728ULL, 80000003ULL};
        uint64_t n = big[w % 3];
        if ((double)n * w / 8 > 4e9) n = (uint64_t)(4e9 * 8 / w);
        cs.push_back({"{\"far\":1,\"w\":" + to_string(w) + ",\"n\":" + to_string(n) + "}",
                      [=](string &o) { packed_far(w, n, A.seed + w, o); }});
    }
}

// ------------------------------------------------------------------ queues
// One trace: operations on one queue.  Values are runs [start, step, count].
struct QOp { char op; uint64_t count; };
static void queue_case(int w, const vector<QOp> &prog, int fillb, uint64_t salt, string &out)
{
    mem_reset();
    mem.fill = fillb;
    flbwt::Queue *Q = LIB(new flbwt::Queue((uint8_t)w));
    string ops;
    int vw = w < 30 ? w : 30; // value = code shifted into the cell
    int sh = w - vw;
    uint64_t lim = 1ULL << vw;
    uint64_t next = salt % lim;
    uint64_t n = 0;
    string bad;
    auto wide = [&](uint64_t code) { // spread the code over the whole cell
        uint64_t v = code << sh;
        if (sh > 0) v |= (code * 0x9E3779B97F4A7C15ULL) & maskw(sh);
        return v & maskw(w);
    };
    for (const QOp &o : prog)
    {
        string e;
        uint64_t c = o.count;
        if (o.op == 'D' && c > n) c = n;
        if (o.op == 'A') c = n;
        if (o.op == 'E' || o.op == 'L')
        {
            // runs never wrap around
            while (c > 0)
            {
                uint64_t k = std::min<uint64_t>(c, lim - next);
                for (uint64_t x = 0; x < k; ++x)
                {
                    uint64_t v = wide(next + x);
                    if (o.op == 'E') LIBV(Q->enqueue(v)); else LIBV(Q->enqueue_l(v));
                }
                e += string(e.empty() ? "" : ",") + "[\"" + o.op + "\",[[" + to_string(next) + ",1," + to_string(k) + "]]," +
                     (Q->is_empty() ? "1" : "0") + "]";
                next = (next + k) % lim;
                n += k;
                c -= k;
            }
        }
        else if (o.op == 'D' || o.op == 'A')
        {
            vector<int64_t> st, sp, ct;
            int early = 0;
            for (uint64_t x = 0; x < c; ++x)
            {
                uint64_t v = (uint64_t)LIB(Q->dequeue());
                bool em = Q->is_empty();
                if (em != (x + 1 == n)) early = 1; // reported with the emptiness flag
                int64_t code = (int64_t)(v >> sh);
                if (v != wide((uint64_t)code) || (uint64_t)code >= lim) code = -1;
                bool joined = false;
                if (!st.empty())
                {
                    size_t t = st.size() - 1;
                    int64_t last = st[t] + sp[t] * (ct[t] - 1);
                    if (ct[t] == 1 && (code == last + 1 || code == last - 1)) { sp[t] = code - last; ct[t]++; joined = true; }
                    else if (ct[t] > 1 && code == last + sp[t]) { ct[t]++; joined = true; }
                }
                if (!joined) { st.push_back(code); sp.push_back(1); ct.push_back(1); }
            }
            n -= c;
            e = "[\"D\",[";
            for (size_t t = 0; t < st.size(); ++t)
                e += string(t ? "," : "") + "[" + to_string(st[t]) + "," + to_string(sp[t]) + "," + to_string(ct[t]) + "]";
            e += "]," + string(early ? "2" : (Q->is_empty() ? "1" : "0")) + "]";
        }
        if (!e.empty()) ops += (ops.empty() ? "" : ",") + e;
    }
    LIBV(delete Q);
    out += "{\"ev\":\"queue\",\"w\":" + to_string(w) + ",\"ops\":[" + ops + "],\"live\":" + to_string(mem.live) + tail();
    mem_reset();
}

void mode_queue(const Args &A, vector<Case> &cs)
{
    // behaviours generated from the specification: one program per line, "E1 L1024 D3 ..."
    vector<vector<QOp>> progs;
    std::ifstream f(A.in);
    string line;
    while (std::getline(f, line))
    {
        vector<QOp> p;
        size_t i = 0;
        while (i < line.size())
        {
            if (line[i] == ' ') { ++i; continue; }
            QOp o;
            o.op = line[i++];
            o.count = strtoull(line.c_str() + i, NULL, 10);
            while (i < line.size() && isdigit(line[i])) ++i;
            p.push_back(o);
        }
        progs.push_back(p);
    }
    int k = 0;
    auto add = [&](int w, const vector<QOp> &p, uint64_t salt) {
        string d = "{\"w\":" + to_string(w) + ",\"prog\":\"";
        for (auto &o : p) d += string(1, o.op) + to_string(o.count) + " ";
        cs.push_back({d + "\"}", [=](string &o) { queue_case(w, p, (int)(salt % 3) * 127, salt, o); }});
    };
    for (auto &p : progs)
    {
        vector<QOp> pp = p;
        pp.push_back({'A', 0});
        pp.push_back({'E', 2});
        pp.push_back({'A', 0});
        add(12 + (k * 7 + (int)A.seed) % 53, pp, (uint64_t)k);
        ++k;
    }
    Rng r(A.seed * 31 + 5);
    for (int w = 1; w <= 64; ++w)
        for (int t = 0; t < (A.thorough ? 12 : 2); ++t)
        {
            vector<QOp> p;
            int len = (int)r.range(6, 24);
            for (int x = 0; x < len; ++x)
            {
                static const uint64_t sizes[] = {1, 1, 1, 2, 3, 5, 1022, 1023, 1024, 1025, 2047, 2048, 3000};
                uint64_t c = sizes[r.below(13)];
                char op = "EELDDD"[r.below(6)];
                p.push_back({op, c});
            }
            p.push_back({'A', 0});
            add(w, p, r.next() % 100000);
        }
    // one long history
    for (int w : {20, 33, 64})
    {
        vector<QOp> p;
        for (int x = 0; x < (A.thorough ? 60 : 12); ++x)
        {
            p.push_back({'E', 1024 * r.range(1, 4) + r.below(3) - 1});
            p.push_back({'L', 1024 * r.range(0, 2) + r.below(3)});
            p.push_back({'D', 1024 * r.range(0, 3) + r.below(3)});
        }
        p.push_back({'A', 0});
        add(w, p, r.next() % 100000);
    }
}

// ------------------------------------------------------------------ split integers
template <class Set, class Get> static void split_case(int w, const vector<int64_t> &vals, uint64_t seed, string &out, Set set, Get get)
{
    Rng r(seed);
    const int CELLS = 7;
    string ops;
    auto emit = [&](const char *o, int i, int64_t v) {
        ops += string(ops.empty() ? "" : ",") + "[\"" + o + "\"," + to_string(i) + "," + bytes8((uint64_t)v) + "]";
    };
    for (int i = 0; i < CELLS; ++i) { int64_t v = vals[r.below(vals.size())]; set(i, v); emit("s", i, v); }
    for (int64_t v : vals)
    {
        int i = (int)r.below(CELLS);
        set(i, v);
        emit("s", i, v);
        for (int j = 0; j < CELLS; ++j) emit("g", j, get(j));
    }
    out += "{\"ev\":\"split\",\"w\":" + to_string(w) + ",\"ops\":[" + ops + "]" + tail();
}

static vector<int64_t> split_values(int w, Rng &r, int extra)
{
    std::set<int64_t> s;
    auto add = [&](__int128 v) {
        __int128 lo = -((__int128)1 << (w - 1)), hi = ((__int128)1 << (w - 1)) - 1;
        if (v < lo || v > hi) return;
        s.insert((int64_t)v);
        s.insert(~(int64_t)v);
    };
    for (int b = 0; b < w; ++b)
        for (int d = -1; d <= 1; ++d) add(((__int128)1 << b) + d);
    add(0);
    for (int k = 0; k < extra; ++k)
    {
        int b = (int)r.range(1, w - 1);
        add((int64_t)(r.next() & maskw(b)));
    }
    vector<int64_t> v(s.begin(), s.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    return v;
}

void mode_split(const Args &A, vector<Case> &cs)
{
    int reps = A.thorough ? 24 : 6;
    for (int rep = 0; rep < reps; ++rep)
        for (int w : {40, 48, 56})
            cs.push_back({"{\"w\":" + to_string(w) + ",\"rep\":" + to_string(rep) + "}", [=](string &o) {
                              Rng r(A.seed * 91 + rep * 3 + w);
                              vector<int64_t> vals = split_values(w, r, 60);
                              mem_reset();
                              uint32_t *L = new uint32_t[7];
                              uint16_t *M = new uint16_t[7];
                              int8_t *U8 = new int8_t[7];
                              int16_t *U16 = new int16_t[7];
                              if (w == 40)
                                  split_case(w, vals, r.next(), o, [&](int i, int64_t v) { flbwt::set_40bit_value(L, U8, i, v); },
                                             [&](int i) { return flbwt::get_40bit_value(L, U8, i); });
                              if (w == 48)
                                  split_case(w, vals, r.next(), o, [&](int i, int64_t v) { flbwt::set_48bit_value(L, U16, i, v); },
                                             [&](int i) { return flbwt::get_48bit_value(L, U16, i); });
                              if (w == 56)
                                  split_case(w, vals, r.next(), o, [&](int i, int64_t v) { flbwt::set_56bit_value(L, M, U8, i, v); },
                                             [&](int i) { return flbwt::get_56bit_value(L, M, U8, i); });
                              delete[] L;
                              delete[] M;
                              delete[] U8;
                              delete[] U16;
                          }});
    cs.push_back({"{\"msb\":1}", [=](string &o) {
                      Rng r(A.seed + 17);
                      std::set<uint64_t> s;
                      for (int b = 0; b < 64; ++b)
                      {
                          uint64_t p = 1ULL << b;
                          s.insert(p); s.insert(p + 1); s.insert(p - 1); s.insert(p | (r.next() & (p - 1)));
                          s.insert(p + (p - 1));
                      }
                      for (uint64_t v = 1; v < 600; ++v) s.insert(v);
                      for (int k = 0; k < (A.thorough ? 20000 : 1500); ++k) s.insert(r.next() >> r.below(64));
                      s.erase(0);
                      string ops;
                      for (uint64_t v : s)
                          ops += string(ops.empty() ? "" : ",") + "[" + bytes8(v) + "," + to_string((int)flbwt::position_of_msb(v)) + "]";
                      o += "{\"ev\":\"msb\",\"ops\":[" + ops + "]" + tail();
                  }});
}

// ------------------------------------------------------------------ records
static string snap(const uint8_t *p, size_t n) { return arr(p, n); }

void mode_record(const Args &A, vector<Case> &cs)
{
    // lengths: every byte count, its first and last value, trailing zero bytes
    vector<uint64_t> lens;
    Rng r(A.seed * 13 + 1);
    for (int b = 0; b < 64; ++b)
        for (int64_t d : {-1, 0, 1}) { uint64_t v = (1ULL << b) + (uint64_t)d; if (v) lens.push_back(v); }
    for (int k = 1; k <= 8; ++k)
        for (int t = 0; t < 6; ++t)
        {
            uint64_t v = r.next() >> (64 - 8 * k);
            for (int z = 0; z < k; ++z) // holes: zero some bytes
                if (r.below(3) == 0) v &= ~(0xFFULL << (8 * z));
            if (v) lens.push_back(v);
        }
    lens.push_back(~0ULL);
    for (uint64_t v = 1; v <= 300; ++v) lens.push_back(v);
    int fills[] = {0x00, 0xFF, 0xA5, 0x01};
    for (int nb = 0; nb < 5; ++nb)
    {
        // tables whose name width differs
        static const uint64_t ns[] = {1, 600, 131072, 40000000, 1ULL << 40};
        uint64_t n = ns[nb];
        for (int fi = 0; fi < 4; ++fi)
        {
            int fb = fills[fi];
            if (nb < 4 || A.thorough || fi == 0)
                cs.push_back({"{\"lengths\":1,\"n\":" + to_string(n) + ",\"fill\":" + to_string(fb) + "}", [=](string &o) {
                                  flbwt::HashTable h(7, n);
                                  string ops;
                                  for (size_t k = 0; k < lens.size(); ++k)
                                  {
                                      if (nb > 0 && k % 3 != (size_t)fi % 3) continue;
                                      uint64_t len = lens[k];
                                      uint8_t m[24];
                                      memset(m, fb, sizeof m);
                                      h.set_length(m + 4, len);
                                      int cl = h.calculate_lenlen(len);
                                      int ll = h.get_lenlen(m + 4);
                                      uint64_t back = h.get_length(m + 4);
                                      int fo = (int)(h.get_first_character_pointer(m + 4) - (m + 4));
                                      uint64_t total = h.string_info_length(m + 4, len);
                                      uint64_t extra = total - len; // the parts beside the characters
                                      ops += string(ops.empty() ? "" : ",") + "{\"k\":\"len\",\"len\":" + bytes8(len) + ",\"mem\":" + snap(m, sizeof m) +
                                             ",\"calc\":" + to_string(cl) + ",\"lenlen\":" + to_string(ll) + ",\"back\":" + bytes8(back) +
                                             ",\"first\":" + to_string(fo) + ",\"extra\":" + bytes8(extra) + "}";
                                  }
                                  o += "{\"ev\":\"record\",\"n\":" + bytes8(n) + ",\"nb\":" + to_string((int)h.NAME_BYTES) + ",\"fill\":" + to_string(fb) +
                                       ",\"ops\":[" + ops + "]" + tail();
                              }});
        }
    }
    // links
    cs.push_back({"{\"links\":1}", [=](string &o) {
                      flbwt::HashTable h(7, 100);
                      string ops;
                      vector<uint64_t> ps = lens;
                      ps.push_back(0);
                      for (size_t k = 0; k < ps.size(); ++k)
                      {
                          uint8_t m[24];
                          memset(m, fills[k % 4], sizeof m);
                          h.set_pointer(m + 4, ps[k]);
                          ops += string(ops.empty() ? "" : ",") + "{\"k\":\"link\",\"v\":" + bytes8(ps[k]) + ",\"fill\":" + to_string(fills[k % 4]) + ",\"mem\":" + snap(m, sizeof m) +
                                 ",\"back\":" + bytes8(h.get_pointer(m + 4)) + ",\"len\":" + bytes8(h.get_length(m + 4)) + "}";
                      }
                      o += "{\"ev\":\"record\",\"n\":" + bytes8(100) + ",\"nb\":" + to_string((int)h.NAME_BYTES) + ",\"fill\":0,\"ops\":[" + ops + "]" + tail();
                  }});
    // names, behind strings of every length magnitude; the memory around stays
    for (int nb = 0; nb < 5; ++nb)
        cs.push_back({"{\"names\":" + to_string(nb) + "}", [=](string &o) {
                          static const uint64_t ns[] = {1, 600, 131072, 40000000, 1ULL << 40};
                          flbwt::HashTable h(7, ns[nb]);
                          Rng rr(A.seed * 5 + nb);
                          string ops;
                          vector<uint64_t> ls = {1, 2, 3, 4, 100, 254, 255, 256, 257, 511, 512, 65535, 65536, 65537, 16777215, 16777216, 16777217};
                          if (interposed()) { ls.push_back(1ULL << 32); ls.push_back((1ULL << 32) + 77); ls.push_back((1ULL << 31) + 3); }
                          for (uint64_t len : ls)
                          {
                              size_t sz = (size_t)len + 4096 * 3;
                              uint8_t *base = (uint8_t *)mmap(NULL, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
                              if (base == MAP_FAILED) continue;
                              uint8_t *p = base + 4096;
                              int fb = fills[len % 4];
                              h.set_length(p, len);
                              size_t off = 1 + p[0] + 1 + (size_t)len; // where the name is, by the record format
                              if (p[0] > 8) off = 10 + (size_t)len;
                              for (int t = 0; t < 5; ++t)
                              {
                                  uint64_t lim = h.NAME_BYTES >= 8 ? ~0ULL : ((1ULL << (8 * h.NAME_BYTES)) - 1);
                                  uint64_t name = t == 0 ? 0 : t == 1 ? lim : t == 2 ? 1 : (rr.next() & lim);
                                  if (t == 3) name &= ~0xFFULL;
                                  memset(p + off - 6, fb, 24);
                                  uint8_t hd[12];
                                  memcpy(hd, p, 12);
                                  if (len < 12) h.set_length(p, len);
                                  uint8_t win[24];
                                  memcpy(win, p + off - 6, 24);
                                  memcpy(hd, p, 12);
                                  h.set_name(p, name);
                                  bool same_head = memcmp(hd, p, len < 8 ? 1 : 10) == 0;
                                  ops += string(ops.empty() ? "" : ",") + "{\"k\":\"name\",\"len\":" + bytes8(len) + ",\"v\":" + bytes8(name) + ",\"before\":" + snap(win, 24) +
                                         ",\"after\":" + snap(p + off - 6, 24) + ",\"back\":" + bytes8(h.get_name(p)) + ",\"lenback\":" + bytes8(h.get_length(p)) + ",\"head\":" + (same_head ? "1" : "0") + "}";
                              }
                              munmap(base, sz);
                          }
                          o += "{\"ev\":\"record\",\"n\":" + bytes8(ns[nb]) + ",\"nb\":" + to_string((int)h.NAME_BYTES) + ",\"fill\":0,\"ops\":[" + ops + "]" + tail();
                      }});
    // name bytes for every table size around the steps
    cs.push_back({"{\"namebytes\":1}", [=](string &o) {
                      string ops;
                      vector<uint64_t> ns;
                      for (int b = 0; b < 63; ++b)
                          for (int64_t d = -4; d <= 4; ++d) { int64_t v = (int64_t)(1ULL << b) + d; if (v >= 1) ns.push_back((uint64_t)v); }
                      for (uint64_t v : ns)
                      {
                          flbwt::HashTable h(3, v);
                          ops += string(ops.empty() ? "" : ",") + "{\"k\":\"nb\",\"n\":" + bytes8(v) + ",\"half\":" + bytes8(v / 2 + 1) + ",\"nb\":" + to_string((int)h.NAME_BYTES) + "}";
                      }
                      o += "{\"ev\":\"record\",\"n\":" + bytes8(1) + ",\"nb\":0,\"fill\":0,\"ops\":[" + ops + "]" + tail();
                  }});
}

// ------------------------------------------------------------------ dictionary
// Walks the chains the way the library documents them.
static std::map<string, uint8_t *> walk_records(flbwt::HashTable *h, bool &dup, uint64_t &count)
{
    std::map<string, uint8_t *> m;
    dup = false;
    count = 0;
    for (uint64_t i = 0; i < h->HTSIZE; ++i)
    {
        uint64_t p = h->head[i];
        uint64_t guard = 0;
        while (p != 0 && guard++ < 10000000)
        {
            uint8_t *r = &h->buf[p];
            uint64_t l = h->get_length(r);
            if (l == 0) break;
            if (l == 2) { p = h->get_pointer(r); continue; }
            string s((char *)h->get_first_character_pointer(r), l);
            if (m.count(s)) dup = true;
            m[s] = r;
            ++count;
            p += h->string_info_length(r, l);
        }
    }
    return m;
}

struct DOp { char op; int s; uint64_t v; }; // i(nsert) f(ind) n(ame)
static void dict_case(uint64_t htsize, uint64_t n, const vector<string> &strs, const vector<DOp> &prog, int fillb, string &out)
{
    mem_reset();
    mem.fill = fillb;
    enter();
    flbwt::HashTable *h = new flbwt::HashTable(htsize, n);
    leave();
    uint64_t lim = h->NAME_BYTES >= 8 ? ~0ULL : ((1ULL << (8 * h->NAME_BYTES)) - 1);
    string ops;
    // each string lies in the middle of other bytes, as in a text
    vector<vector<uint8_t>> copy;
    for (auto &s : strs)
    {
        vector<uint8_t> c(s.begin(), s.end());
        c.insert(c.begin(), 0x5A);
        c.push_back(0xA5);
        copy.push_back(c);
    }
    for (const DOp &o : prog)
    {
        const string &s = strs[o.s];
        uint8_t *p = &copy[o.s][1];
        string e = string("[\"") + o.op + "\"," + to_string(o.s + 1) + ",";
        if (o.op == 'i')
        {
            enter();
            int r = h->insert_string(s.size(), p);
            leave();
            e += "\"" + string(r ? "new" : "old") + "\"]";
        }
        else if (o.op == 'f')
        {
            string res;
            enter();
            try { uint64_t v = h->find_name(s.size(), p); leave(); res = hex64(v); }
            catch (const std::exception &) { leave(); res = "error"; }
            e += "\"" + res + "\"]";
        }
        else
        {
            bool dup; uint64_t cnt;
            auto m = walk_records(h, dup, cnt);
            auto it = m.find(s);
            uint64_t v = o.v & lim;
            if (it == m.end()) e += "\"lost\"]";
            else { h->set_name(it->second, v); e += "\"" + hex64(v) + "\"]"; }
        }
        ops += (ops.empty() ? "" : ",") + e;
    }
    bool dup; uint64_t cnt;
    auto m = walk_records(h, dup, cnt);
    string fin = "[";
    bool first = true;
    for (auto &kv : m)
    {
        int id = 0; // which of the strings it is; 0: none of them
        for (size_t k = 0; k < strs.size(); ++k) if (strs[k] == kv.first) id = (int)k + 1;
        uint8_t *r = kv.second;
        int sentinel = *(h->get_first_character_pointer(r) - 1);
        fin += string(first ? "" : ",") + "[" + to_string(id) + "," + to_string(sentinel) + "," + to_string((int)(uint8_t)kv.first[0]) + "]";
        first = false;
    }
    fin += "]";
    string ss = "[";
    for (size_t k = 0; k < strs.size(); ++k) // long strings by head, length and checksum, which are distinct as well
    {
        string id = hex((const uint8_t *)strs[k].data(), std::min<size_t>(strs[k].size(), 600));
        if (strs[k].size() > 600)
        {
            uint64_t ck = 1469598103934665603ULL;
            for (unsigned char c : strs[k]) ck = (ck ^ c) * 1099511628211ULL;
            id += ":" + to_string(strs[k].size()) + ":" + hex64(ck);
        }
        ss += string(k ? "," : "") + "\"" + id + "\"";
    }
    ss += "]";
    enter();
    delete h;
    leave();
    out += "{\"ev\":\"dict\",\"ht\":" + to_string(htsize) + ",\"strs\":" + ss + ",\"ops\":[" + ops + "],\"fin\":" + fin + ",\"dup\":" + (dup ? "1" : "0") +
           ",\"count\":" + to_string(cnt) + ",\"live\":" + to_string(mem.live) + tail();
    mem_reset();
}

// a string of length len over small steps whose hash equals that of others:
// (a, b) and (a-1, b+101) contribute the same to the polynomial
static string colliding(uint64_t len, uint64_t which, uint64_t seed)
{
    Rng r(seed);
    string s;
    for (uint64_t i = 0; i < len; ++i) s += (char)(50 + r.below(50));
    for (int b = 0; b < 10 && (uint64_t)(2 * b + 1) < len; ++b)
        if ((which >> b) & 1)
        {
            s[2 * b] = (char)(s[2 * b] - 1);
            s[2 * b + 1] = (char)(s[2 * b + 1] + 101);
        }
    return s;
}

void mode_dict(const Args &A, vector<Case> &cs)
{
    // insertion sequences generated from the specification: "h i1 i2 f3 n1 ..."; string k gets a concrete shape
    std::ifstream f(A.in);
    string line;
    int k = 0;
    static const uint64_t shapes[][5] = {{3, 3, 4, 4, 5}, {255, 256, 257, 254, 256}, {3, 300, 480, 500, 512}, {240, 241, 242, 243, 244}, {505, 506, 507, 508, 509}, {1024, 3, 900, 4, 600}};
    while (std::getline(f, line))
    {
        vector<DOp> p;
        size_t i = 0;
        Rng rv(A.seed + k);
        while (i < line.size())
        {
            if (line[i] == ' ') { ++i; continue; }
            DOp o;
            o.op = line[i++];
            o.s = (int)strtol(line.c_str() + i, NULL, 10) - 1;
            o.v = rv.next();
            while (i < line.size() && isdigit(line[i])) ++i;
            p.push_back(o);
        }
        for (int s = 0; s < 5; ++s) p.push_back({'f', s, 0});
        const uint64_t *sh = shapes[k % 6];
        vector<string> strs;
        for (int s = 0; s < 5; ++s)
        {
            Rng r(A.seed * 3 + s);
            string x;
            for (uint64_t c = 0; c < sh[s]; ++c) x += (char)(c == 0 ? (s & 1 ? 255 : 10 * s) : r.below(256));
            if (s == 4) x = strs[0].substr(0, strs[0].size() - 1) + x.substr(0, 1) + x.substr(0, sh[4] > strs[0].size() ? sh[4] - strs[0].size() : 0); // long common prefix
            strs.push_back(x);
        }
        std::set<string> uniq(strs.begin(), strs.end());
        if (uniq.size() == 5)
        {
            uint64_t ht = (k / 6) % 3 == 0 ? 1 : (k / 6) % 3 == 1 ? 2 : 67777;
            cs.push_back({"{\"dictprog\":\"" + line + "\",\"shape\":" + to_string(k % 6) + ",\"ht\":" + to_string(ht) + "}",
                          [=](string &o) { dict_case(ht, 100000, strs, p, (k % 2) ? 0xFF : 0x00, o); }});
        }
        ++k;
    }
    // strings that share length, hash and almost every character
    for (uint64_t len : {3ULL, 4ULL, 8ULL, 200ULL, 254ULL, 255ULL, 256ULL, 257ULL, 511ULL, 512ULL, 513ULL, 4095ULL, 4096ULL, 4097ULL, 65535ULL, 65536ULL, 65537ULL, 70000ULL, 131072ULL, 131075ULL})
        for (int z = 0; z < 2; ++z)
            cs.push_back({"{\"dictclose\":" + to_string(len) + "}", [=](string &o) {
                              Rng r(A.seed * 41 + len);
                              string base;
                              for (uint64_t i = 0; i < len; ++i) base += (char)(z ? r.range(1, 255) : 80);
                              vector<string> strs{base};
                              std::set<uint64_t> at{0, 1, len - 2, len - 3, len / 2, len > 256 ? 255ULL : 0ULL, len > 257 ? 256ULL : 0ULL, len > 65537 ? 65535ULL : 0ULL, len > 65538 ? 65536ULL : 0ULL, r.below(len - 1)};
                              for (uint64_t i : at)
                              {
                                  if (i + 1 >= len) continue;
                                  string s = base; // the same hash: 101 more at i + 1 make up for one less at i
                                  unsigned char a = (unsigned char)s[i], b = (unsigned char)s[i + 1];
                                  if (a == 0) continue;
                                  if (b + 101 > 255) { if (b < 101 || a == 255) continue; s[i] = (char)(a + 1); s[i + 1] = (char)(b - 101); }
                                  else { s[i] = (char)(a - 1); s[i + 1] = (char)(b + 101); }
                                  strs.push_back(s);
                                  s[i] = base[i]; // and one that differs in a single character
                                  strs.push_back(s);
                              }
                              std::set<string> seen;
                              vector<string> u;
                              for (auto &s : strs) if (seen.insert(s).second) u.push_back(s);
                              vector<DOp> p;
                              int ns = (int)u.size();
                              for (int s = 0; s < ns; ++s) { p.push_back({'i', s, 0}); p.push_back({'f', (s + 1) % ns, 0}); }
                              for (int s = 0; s < ns; ++s) p.push_back({'n', s, r.next()});
                              for (int s = 0; s < ns; ++s) { p.push_back({'i', s, 0}); p.push_back({'f', s, 0}); }
                              for (uint64_t ht : {1ULL, 67777ULL}) dict_case(ht, 3 * len, u, p, 0xFF, o);
                          }});
    // random histories: collisions, many blocks, every length class
    int reps = A.thorough ? 60 : 14;
    for (int rep = 0; rep < reps; ++rep)
        cs.push_back({"{\"dictrandom\":" + to_string(rep) + "}", [=](string &o) {
                          Rng r(A.seed * 977 + rep);
                          vector<string> strs;
                          std::set<string> seen;
                          int want = rep % 3 == 0 ? 200 : 80;
                          uint64_t base = rep % 4 == 0 ? r.range(3, 30) : 0;
                          for (int t = 0; t < want * 2 && (int)strs.size() < want; ++t)
                          {
                              string s;
                              if (base) s = colliding(r.below(4) ? base * 2 : r.range(3, 300), r.below(1024), A.seed + rep);
                              else
                              {
                                  static const uint64_t L[] = {3, 3, 4, 5, 8, 20, 100, 200, 253, 254, 255, 256, 257, 400, 490, 500, 511, 512, 513, 768, 1024, 2000};
                                  uint64_t len = L[r.below(22)];
                                  int al = r.below(2) ? 2 : 256;
                                  for (uint64_t c = 0; c < len; ++c) s += (char)(al == 2 ? (r.below(2) ? 0 : 255) : r.below(256));
                              }
                              if (seen.insert(s).second) strs.push_back(s);
                          }
                          if (rep % 5 == 0)
                              for (uint64_t len : {65535ULL, 65536ULL, 65537ULL})
                              {
                                  string s;
                                  for (uint64_t c = 0; c < len; ++c) s += (char)r.below(256);
                                  strs.push_back(s);
                              }
                          vector<DOp> p;
                          int ns = (int)strs.size();
                          for (int t = 0; t < ns * 4; ++t)
                          {
                              uint64_t d = r.below(10);
                              int s = (int)(t < ns && d < 7 ? (size_t)t : r.below(ns));
                              if (d < 7) p.push_back({'i', s, 0});
                              else if (d < 9) p.push_back({'f', s, 0});
                              else p.push_back({'n', s, r.next()});
                          }
                          // a 'n' on a string not yet inserted is replaced by a find
                          std::set<int> in;
                          for (auto &op : p)
                          {
                              if (op.op == 'i') in.insert(op.s);
                              if (op.op == 'n' && !in.count(op.s)) op.op = 'f';
                          }
                          for (int s = 0; s < ns; ++s) p.push_back({'f', s, 0});
                          static const uint64_t hts[] = {1, 2, 67777, 7, 67777};
                          static const uint64_t nn[] = {500, 131070, 200000, 40000000, 60};
                          dict_case(hts[rep % 5], nn[r.below(5)], strs, p, rep % 2 ? 256 : (rep % 4 ? 0xFF : 0x02), o);
                      }});
}
