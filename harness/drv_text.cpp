// Driver modes for texts: the whole transform, its stages, the suffix sorters.
#include "drv.hpp"
#include "gen.hpp"
#include <stdlib.h>
#include <sys/mman.h>
#include <map>
#include <set>
#include "flbwt.hpp"
#include "hashtable.hpp"
#include "induce40bit.hpp"
#include "induce48bit.hpp"
#include "induce56bit.hpp"
#include "induce64bit.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"
#include "utility.hpp"
using namespace hx;
using std::string;
using std::to_string;
using std::vector;
extern uint64_t force_max;
extern thread_local uint64_t seen_max;
extern thread_local int seen_width;

static string brief(const Text &t, const string &name)
{
    return "{\"text\":\"" + name + "\",\"n\":" + to_string(t.size()) + ",\"hex\":\"" + hex(t.data(), std::min<size_t>(t.size(), 48)) + "\"}";
}
static string witness(const Text &t)
{
    Witness w(t);
    return "\"sa\":" + nums(w.sa) + ",\"isa\":" + nums(w.isa);
}
static string tail() { return ",\"bad\":" + to_string(mem.bad) + ",\"why\":\"" + mem.why + "\""; }

static void drop(flbwt::BWT_result *b)
{
    if (!b) return;
    delete[] b->BWT;
    free(b);
}
// result as JSON: [last, [rows]]
static string result(flbwt::BWT_result *b, size_t n)
{
    if (!b || !b->BWT) return "[-1,[]]";
    int64_t last = b->last > 2000000000ULL ? -2 : (int64_t)b->last;
    return "[" + to_string(last) + "," + arr(b->BWT, n + 1) + "]";
}

// the texts a mode runs on: tiny ones in bulk and families at several sizes
typedef std::function<void(const Text &, string &)> OneText;
static void plan(const Args &A, vector<Case> &cs, OneText f, int tiny2, int tiny3, int tiny4, const vector<std::pair<size_t, int>> &sizes)
{
    auto bulk = [&](int k, int maxn) {
        for (int n = 1; n <= maxn; ++n)
        {
            uint64_t all = power((uint64_t)k, n);
            for (uint64_t from = 0; from < all; from += 256)
            {
                uint64_t to = std::min(all, from + 256);
                cs.push_back({"{\"tiny\":" + to_string(k) + ",\"n\":" + to_string(n) + ",\"from\":" + to_string(from) + "}", [=](string &o) {
                                  for (uint64_t c = from; c < to; ++c)
                                  {
                                      Rng r(A.seed * 101 + c * 7 + (uint64_t)n);
                                      vector<uint8_t> e = embedding(k, r);
                                      Text t = letters(c, k, n);
                                      for (auto &x : t) x = e[x];
                                      f(t, o);
                                  }
                              }});
            }
        }
    };
    bulk(2, tiny2);
    bulk(3, tiny3);
    bulk(4, tiny4);
    for (auto &s : sizes)
        for (int k = 0; k < s.second; ++k)
            cs.push_back({"{\"family\":" + to_string(k % 20) + ",\"n\":" + to_string(s.first) + ",\"k\":" + to_string(k) + ",\"seed\":" + to_string(A.seed) + "}",
                          [=](string &o) {
                              Rng r(A.seed + (uint64_t)k * 17);
                              size_t n = s.first - r.below(s.first / 5 + 1);
                              f(family(k, n, A.seed * 100 + (uint64_t)k), o);
                          }});
}
// particular shapes: record lengths with zero bytes, names beyond one and two bytes, crowded buckets
static vector<Named> special(const Args &A)
{
    vector<Named> v;
    uint64_t seed = A.seed;
    for (size_t L : {254, 255, 256, 257, 258, 510, 511, 512, 513, 768, 1024, 65535, 65536, 65537})
        v.push_back({"substring of " + to_string(L), [=]() { return with_substrings({L, 3, L, 4, L + 1}, (uint8_t)(L % 7), (uint8_t)(200 + L % 50), L % 3, L % 4); }});
    for (size_t L : {254, 255, 256, 257, 65530, 65535, 65536, 65540}) // substrings that agree in their first L bytes
        v.push_back({"substrings alike for " + to_string(L), [=]() {
                         Rng r(seed * 7 + L);
                         Text t(1, 9);
                         for (int k = 0; k < (L > 60000 ? 3 : 12); ++k)
                         { // then up, and down a few steps
                             t.push_back(1);
                             t.insert(t.end(), L - 1, 2);
                             uint8_t z = (uint8_t)(100 + r.below(156));
                             for (int m = (int)r.below(3); m >= 0; --m, z = (uint8_t)(z - 1 - r.below(30))) t.push_back(z);
                         }
                         t.push_back(1);
                         t.push_back(9);
                         return t;
                     }});
    v.push_back({"head of 65536", [=]() { Text t(65535, 9); t.push_back(3); t.push_back(7); t.push_back(3); return t; }});
    v.push_back({"head of 256", [=]() { Text t(255, 9); t.push_back(3); t.push_back(7); t.push_back(3); return t; }});
    v.push_back({"increasing head", [=]() { Text t(300); for (size_t i = 0; i < 300; ++i) t[i] = (uint8_t)(i / 2); t.push_back(1); t.push_back(200); t.push_back(0); t.push_back(1); return t; }});
    // all S* substrings differ and share their hash value: (a, b) -> (a - 1, b + 101)
    v.push_back({"colliding substrings", [=]() {
                     Text t;
                     for (int rep = 0; rep < 2; ++rep)
                         for (int m = 0; m < 512; ++m)
                         {
                             Text s;
                             s.push_back(1);
                             for (int b = 0; b < 9; ++b)
                             { // increasing: a pair lies in its own range
                                 uint8_t a = (uint8_t)(10 + 0), c = 20;
                                 (void)a;
                                 (void)c;
                                 if ((m >> b) & 1) { s.push_back(99); s.push_back(101 + 20); }
                                 else { s.push_back(100); s.push_back(20); }
                             }
                             s.push_back(150);
                             t.insert(t.end(), s.begin(), s.end());
                         }
                     return t;
                 }});
    v.push_back({"256 distinct substrings", [=]() { Text t; for (int i = 0; i < 256; ++i) { t.push_back(1); t.push_back((uint8_t)(2 + i % 250)); t.push_back((uint8_t)(255 - i % 3)); } return t; }});
    for (int n : {254, 255, 256, 257})
        v.push_back({to_string(n) + " names", [=]() { Text t; for (int i = 0; i < n - 1; ++i) { t.push_back(0); t.push_back((uint8_t)(1 + i / 16)); t.push_back((uint8_t)(200 + i % 16)); } t.push_back(0); return t; }});
    v.push_back({"names of two bytes", [=]() { Rng r(seed); Text t; for (int i = 0; i < 1500; ++i) { t.push_back(1); t.push_back((uint8_t)(2 + r.below(250))); t.push_back((uint8_t)(2 + r.below(250))); t.push_back((uint8_t)(255)); } return t; }});
    // more distinct substrings than two bytes can name, in an order that is not theirs
    v.push_back({"names beyond two bytes", [=]() {
                     vector<uint32_t> b;
                     for (uint32_t x = 1; x <= 64; ++x)
                         for (uint32_t y = 1; y <= 46; ++y)
                             for (uint32_t z = 1; z <= y; ++z) b.push_back((x * 4 - 1) << 16 | (y * 5) << 8 | z * 5);
                     Rng r(seed + 5);
                     for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[r.below(i)]);
                     Text t;
                     for (uint32_t w : b) { t.push_back(0); t.push_back((uint8_t)(w >> 16)); t.push_back((uint8_t)(w >> 8)); t.push_back((uint8_t)w); }
                     return t;
                 }});
    v.push_back({"de Bruijn 2", [=]() { return de_bruijn(2, {0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 255}); }});
    v.push_back({"de Bruijn 10", [=]() { return de_bruijn(10, {0, 255}); }});
    for (size_t n : {1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000})
    {
        v.push_back({"unary " + to_string(n), [=]() { return Text(n, (uint8_t)(n % 5)); }});
        v.push_back({"a^" + to_string(n) + " b", [=]() { Text t(n, 97); t.push_back(98); return t; }});
        v.push_back({"b a^" + to_string(n), [=]() { Text t(1, 98); t.insert(t.end(), n, 97); return t; }});
        v.push_back({"alternating " + to_string(n), [=]() { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = i % 2 ? 200 : 100; return t; }});
        v.push_back({"a^n b^n " + to_string(n), [=]() { Text t(n, 5); t.insert(t.end(), n, 6); return t; }});
    }
    return v;
}
static void add_special(const Args &A, vector<Case> &cs, OneText f, size_t limit)
{
    for (auto &s : special(A))
    {
        Text t = s.make();
        if (t.size() > limit) continue;
        auto mk = s.make;
        cs.push_back({brief(t, s.name), [=](string &o) { f(mk(), o); }});
    }
}

// ------------------------------------------------------------------ whole transform
static void one_bwt(const Text &t, string &out)
{
    size_t n = t.size();
    uint8_t *buf = (uint8_t *)malloc(n + 1);
    memcpy(buf, t.data(), n);
    buf[n] = 0;
    mem_reset();
    mem.fill = n % 3 == 0 ? 0xFF : n % 3 == 1 ? 256 : 0;
    string ex;
    flbwt::BWT_result *b = NULL;
    enter();
    try { b = flbwt::bwt_string(buf, n, false); leave(); }
    catch (const std::exception &e) { leave(); ex = e.what(); }
    out += "{\"ev\":\"bwt\",\"T\":" + arr(t.data(), n) + "," + witness(t) + ",\"ex\":\"" + ex + "\",\"res\":" + result(b, n) + tail() + "}\n";
    drop(b);
    free(buf);
    mem_reset();
}
void mode_bwt(const Args &A, vector<Case> &cs)
{
    if (A.thorough)
        plan(A, cs, one_bwt, 15, 10, 8, {{12, 400}, {40, 400}, {150, 400}, {700, 200}, {3000, 120}, {20000, 60}, {120000, 20}, {400000, 8}});
    else if (!interposed())
        plan(A, cs, one_bwt, 8, 6, 4, {{40, 40}, {300, 40}, {3000, 20}, {30000, 2}});
    else
        plan(A, cs, one_bwt, 12, 8, 6, {{12, 100}, {40, 100}, {150, 100}, {700, 60}, {3000, 40}, {20000, 8}});
    add_special(A, cs, one_bwt, A.thorough ? 1000000 : interposed() ? 330000 : 30000);
    if (interposed())
        cs.push_back({"{\"names of three bytes\":1}", [=](string &o) { // more than 65536 S* substrings, most of them different
                          Rng r(A.seed + 3);
                          Text t;
                          while (t.size() < 150000) { t.push_back(1); t.push_back((uint8_t)(2 + r.below(250))); if (r.below(8) == 0) t.push_back((uint8_t)(2 + r.below(250))); }
                          one_bwt(t, o);
                      }});
}

// ------------------------------------------------------------------ stages
static vector<string> walk_strings(flbwt::HashTable *h)
{
    vector<string> v;
    uint64_t guard = 0;
    for (uint64_t i = 0; i < h->HTSIZE; ++i)
    {
        uint64_t p = h->head[i];
        while (p != 0 && guard++ < 20000000)
        {
            uint8_t *r = &h->buf[p];
            uint64_t l = h->get_length(r);
            if (l == 0) break;
            if (l == 2) { p = h->get_pointer(r); continue; }
            v.push_back(string((char *)h->get_first_character_pointer(r), l));
            p += h->string_info_length(r, l);
        }
    }
    return v;
}
static string counts(const uint64_t *c) // bytes with a nonzero count: [[byte, count], ..]
{
    string s = "[";
    for (int b = 0; b < 256; ++b)
        if (c[b + 1]) s += string(s.size() > 1 ? "," : "") + "[" + to_string(b) + "," + to_string(c[b + 1]) + "]";
    return s + "]";
}
static string strings(const vector<string> &v)
{
    string s = "[";
    for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + arr((const uint8_t *)v[i].data(), v[i].size());
    return s + "]";
}
// S* positions by definition (0-based, without the end)
static vector<size_t> stars(const Text &t)
{
    size_t n = t.size();
    vector<char> s(n + 1);
    s[n] = 1;
    for (size_t i = n; i-- > 0;) s[i] = i + 1 == n ? 0 : t[i] < t[i + 1] ? 1 : t[i] > t[i + 1] ? 0 : s[i + 1];
    vector<size_t> p;
    for (size_t i = 1; i < n; ++i) if (s[i] && !s[i - 1]) p.push_back(i);
    return p;
}
// which of the listed strings each S* substring of the text is (0: none)
static vector<int64_t> occurrences(const Text &t, const vector<string> &list)
{
    std::map<string, int64_t> at;
    for (size_t k = 0; k < list.size(); ++k) at.emplace(list[k], (int64_t)k + 1);
    vector<size_t> p = stars(t);
    string all((const char *)t.data(), t.size());
    all.push_back('\0');
    vector<int64_t> ids;
    for (size_t k = 0; k < p.size(); ++k)
    {
        size_t e = k + 1 < p.size() ? p[k + 1] : t.size();
        auto it = at.find(all.substr(p[k], e - p[k] + 1));
        ids.push_back(it == at.end() ? 0 : it->second);
    }
    return ids;
}

static void one_decomp(const Text &t, string &out)
{
    size_t n = t.size();
    uint8_t *buf = (uint8_t *)malloc(n + 1);
    memcpy(buf, t.data(), n);
    buf[n] = 0;
    mem_reset();
    mem.fill = n % 2 ? 0xFF : 256;
    flbwt::Container *c = LIB(flbwt::extract_LMS_strings(buf, n));
    vector<string> strs = walk_strings(c->hashtable);
    out += "{\"ev\":\"decomp\",\"T\":" + arr(t.data(), n) + "," + witness(t) + ",\"nsub\":" + to_string(c->num_of_substrings) + ",\"nuniq\":" + to_string(c->num_of_unique_substrings) +
           ",\"head\":" + to_string(c->head_string_end) + ",\"M\":" + counts(c->M) + ",\"NL\":" + counts(c->NL) + ",\"C\":" + counts(c->C) + ",\"strs\":" + strings(strs) + ",\"ids\":" + nums(occurrences(t, strs)) +
           ",\"same\":" + (memcmp(buf, t.data(), n) == 0 && buf[n] == 0 ? "1" : "0");
    LIBV(delete c);
    out += ",\"live\":" + to_string(mem.live) + tail() + "}\n";
    free(buf);
    mem_reset();
}
static void one_names(const Text &t, string &out)
{
    size_t n = t.size();
    uint8_t *buf = (uint8_t *)malloc(n + 1);
    memcpy(buf, t.data(), n);
    buf[n] = 0;
    mem_reset();
    mem.fill = n % 2 ? 0xFF : 256;
    flbwt::Container *c = LIB(flbwt::extract_LMS_strings(buf, n));
    uint8_t **S = LIB(flbwt::sort_LMS_strings(buf, c));
    flbwt::PackedArray *T1 = LIB(flbwt::create_shortened_string(buf, n, c));
    flbwt::HashTable *h = c->hashtable;
    uint64_t u = c->num_of_unique_substrings;
    vector<string> strs;
    vector<uint64_t> names;
    for (uint64_t k = 1; k <= u; ++k)
    {
        uint64_t l = h->get_length(S[k]);
        if (l > n + 1) l = 0;
        strs.push_back(string((char *)h->get_first_character_pointer(S[k]), l));
        names.push_back(h->get_name(S[k]));
    }
    vector<int64_t> lcp;
    for (size_t k = 0; k + 1 < strs.size(); ++k)
    {
        int64_t d = 0;
        while ((size_t)d < strs[k].size() && (size_t)d < strs[k + 1].size() && strs[k][d] == strs[k + 1][d]) ++d;
        lcp.push_back(d);
    }
    vector<uint64_t> t1;
    uint64_t len = T1->get_length();
    for (uint64_t k = 0; k < len && k < n + 3; ++k) t1.push_back(T1->get_value(k));
    uint64_t hl = h->get_length(S[u + 1]), el = h->get_length(S[0]);
    string headrec((char *)h->get_first_character_pointer(S[u + 1]), hl > n + 1 ? 0 : hl);
    string endrec((char *)h->get_first_character_pointer(S[0]), el > n + 1 ? 0 : el);
    // order of the suffixes of the shortened text, by an independent sort
    vector<int32_t> sa1, isa1;
    if (t1.size() >= 2)
    {
        vector<int64_t> x(t1.begin() + 1, t1.end());
        suffix_array(x.data(), x.size(), sa1, isa1);
        for (auto &v : sa1) ++v;
        for (auto &v : isa1) ++v;
    }
    out += "{\"ev\":\"names\",\"T\":" + arr(t.data(), n) + "," + witness(t) + ",\"u\":" + to_string(u) + ",\"strs\":" + strings(strs) + ",\"names\":" + nums(names) + ",\"lcp\":" + nums(lcp) +
           ",\"headrec\":" + arr((const uint8_t *)headrec.data(), headrec.size()) + ",\"headname\":" + to_string(h->get_name(S[u + 1])) + ",\"endrec\":" + arr((const uint8_t *)endrec.data(), endrec.size()) +
           ",\"T1\":" + nums(t1) + ",\"sa1\":" + nums(sa1) + ",\"isa1\":" + nums(isa1) +
           ",\"same\":" + (memcmp(buf, t.data(), n) == 0 && buf[n] == 0 ? "1" : "0");
    LIBV(delete T1);
    LIBV(free(S));
    LIBV(delete c);
    out += ",\"live\":" + to_string(mem.live) + tail() + "}\n";
    free(buf);
    mem_reset();
}
void mode_decomp(const Args &A, vector<Case> &cs)
{
    OneText f = one_decomp;
    if (A.thorough) plan(A, cs, f, 14, 9, 7, {{12, 300}, {40, 300}, {150, 300}, {700, 200}, {3000, 100}, {20000, 40}, {150000, 12}});
    else if (!interposed()) plan(A, cs, f, 8, 6, 4, {{40, 40}, {300, 40}, {3000, 20}});
    else plan(A, cs, f, 11, 7, 5, {{12, 60}, {40, 80}, {150, 80}, {700, 60}, {3000, 30}, {20000, 6}});
    add_special(A, cs, f, A.thorough ? 1000000 : interposed() ? 330000 : 30000);
}
void mode_names(const Args &A, vector<Case> &cs)
{
    OneText f = one_names;
    if (A.thorough) plan(A, cs, f, 14, 9, 7, {{12, 300}, {40, 300}, {150, 300}, {700, 200}, {3000, 100}, {20000, 40}, {150000, 12}});
    else if (!interposed()) plan(A, cs, f, 8, 6, 4, {{40, 40}, {300, 40}, {3000, 20}});
    else plan(A, cs, f, 11, 7, 5, {{12, 60}, {40, 80}, {150, 80}, {700, 60}, {3000, 30}, {20000, 6}});
    add_special(A, cs, f, A.thorough ? 1000000 : interposed() ? 330000 : 30000);
    if (interposed())
        cs.push_back({"{\"names of three bytes\":1}", [=](string &o) {
                          Rng r(A.seed + 3);
                          Text t;
                          while (t.size() < 150000) { t.push_back(1); t.push_back((uint8_t)(2 + r.below(250))); if (r.below(4)) t.push_back((uint8_t)(2 + r.below(250))); }
                          one_names(t, o);
                      }});
}

// small texts, everything at once, for the step-by-step comparison with Flbwt.tla
void mode_lockstep(const Args &A, vector<Case> &cs)
{
    auto one = [](const Text &lt, const vector<uint8_t> &emb, string &out) {
        Text t = lt;
        for (auto &x : t) x = emb[x];
        size_t n = t.size();
        uint8_t *buf = (uint8_t *)malloc(n + 1);
        memcpy(buf, t.data(), n);
        buf[n] = 0;
        mem_reset();
        mem.fill = 256;
        flbwt::Container *c = LIB(flbwt::extract_LMS_strings(buf, n));
        vector<uint64_t> M, NL, C;
        for (size_t k = 0; k < emb.size(); ++k)
        {
            M.push_back(c->M[emb[k] + 1]);
            NL.push_back(c->NL[emb[k] + 1]);
            C.push_back(c->C[emb[k] + 1]);
        }
        uint8_t **S = LIB(flbwt::sort_LMS_strings(buf, c));
        flbwt::PackedArray *T1 = LIB(flbwt::create_shortened_string(buf, n, c));
        auto back = [&](uint8_t x) { for (size_t k = 0; k < emb.size(); ++k) if (emb[k] == x) return (int)k; return -1; };
        flbwt::HashTable *h = c->hashtable;
        string strs = "[";
        for (uint64_t k = 1; k <= c->num_of_unique_substrings; ++k)
        {
            uint64_t l = h->get_length(S[k]);
            if (l > n + 1) l = 0;
            strs += string(k > 1 ? "," : "") + "[";
            for (uint64_t x = 0; x < l; ++x) strs += (x ? "," : "") + to_string(back(h->get_first_character_pointer(S[k])[x]));
            strs += "]";
        }
        strs += "]";
        vector<uint64_t> t1;
        for (uint64_t k = 0; k < T1->get_length() && k < n + 3; ++k) t1.push_back(T1->get_value(k));
        uint64_t m = c->num_of_substrings + 1;
        int32_t *SA = LIB(new int32_t[m + 1]);
        LIBV(flbwt::sais_32bit((uint8_t *)T1->get_raw_arr_pointer(), SA, 0, m, c->num_of_unique_substrings + 2, T1->get_integer_bits()));
        vector<int64_t> sa1(SA, SA + m);
        uint64_t nsub = c->num_of_substrings, head = c->head_string_end;
        for (uint64_t k = 0; k < m; ++k)
        {
            uint8_t *q = S[T1->get_value((uint64_t)SA[k])];
            SA[k] = (int32_t)(h->get_first_character_pointer(q) + h->get_length(q) - 1 - c->bwp_base);
        }
        LIBV(free(S));
        LIBV(delete T1);
        flbwt::BWT_result *b = LIB(flbwt::induce_bwt_32bit(SA, c));
        string rows = "[";
        for (size_t k = 0; k <= n; ++k) rows += (k ? "," : "") + to_string(k == b->last ? -1 : back(b->BWT[k]));
        rows += "]";
        out += "{\"ev\":\"lockstep\",\"T\":" + nums(lt) + ",\"nsub\":" + to_string(nsub) + ",\"head\":" + to_string(head) + ",\"M\":" + nums(M) + ",\"NL\":" + nums(NL) + ",\"C\":" + nums(C) + ",\"S\":" + strs +
               ",\"T1\":" + nums(t1) + ",\"SA1\":" + nums(sa1) + ",\"last\":" + to_string(b->last) + ",\"B\":" + rows + tail() + "}\n";
        drop(b);
        LIBV(delete c);
        free(buf);
        mem_reset();
    };
    auto bulk = [&](int k, int maxn, uint64_t stride) {
        for (int n = 1; n <= maxn; ++n)
        {
            uint64_t all = power((uint64_t)k, n);
            for (uint64_t from = 0; from < all; from += 64)
                cs.push_back({"{\"letters\":" + to_string(k) + ",\"n\":" + to_string(n) + ",\"from\":" + to_string(from) + "}", [=](string &o) {
                                  for (uint64_t c = from; c < std::min(all, from + 64); ++c)
                                  {
                                      if (n == maxn && c % stride != A.seed % stride) continue;
                                      Rng r(A.seed * 101 + c * 7 + (uint64_t)n);
                                      one(letters(c, k, n), embedding(k, r), o);
                                  }
                              }});
        }
    };
    int K = atoi(A.opt.c_str());
    if (K == 3) bulk(3, A.thorough ? 9 : 7, A.thorough ? 1 : 5);
    if (K == 2) bulk(2, A.thorough ? 13 : 10, A.thorough ? 1 : 5);
    if (K == 5)
        for (int k = 0; k < (A.thorough ? 600 : 120); ++k)
            cs.push_back({"{\"lockstep random\":" + to_string(k) + "}", [=](string &o) {
                              Rng r(A.seed * 77 + (uint64_t)k);
                              Text t((size_t)r.range(8, 26));
                              int al = (int)r.range(2, 5);
                              for (auto &x : t) x = (uint8_t)r.below((uint64_t)al);
                              one(t, embedding(5, r), o);
                          }});
}

// ------------------------------------------------------------------ inducing at every width
static flbwt::BWT_result *induce(int w, const vector<int64_t> &v, flbwt::Container *c)
{
    size_t m = v.size();
    switch (w)
    {
    case 32: { int32_t *a = new int32_t[m + 1]; for (size_t i = 0; i < m; ++i) a[i] = (int32_t)v[i]; return flbwt::induce_bwt_32bit(a, c); }
    case 40: { uint32_t *l = new uint32_t[m + 1]; int8_t *u = new int8_t[m + 1]; for (size_t i = 0; i < m; ++i) { l[i] = (uint32_t)v[i]; u[i] = (int8_t)(v[i] >> 32); } return flbwt::induce_bwt_40bit(l, u, c); }
    case 48: { uint32_t *l = new uint32_t[m + 1]; int16_t *u = new int16_t[m + 1]; for (size_t i = 0; i < m; ++i) { l[i] = (uint32_t)v[i]; u[i] = (int16_t)(v[i] >> 32); } return flbwt::induce_bwt_48bit(l, u, c); }
    case 56: { uint32_t *l = new uint32_t[m + 1]; uint16_t *mm = new uint16_t[m + 1]; int8_t *u = new int8_t[m + 1]; for (size_t i = 0; i < m; ++i) { l[i] = (uint32_t)v[i]; mm[i] = (uint16_t)(v[i] >> 32); u[i] = (int8_t)(v[i] >> 48); } return flbwt::induce_bwt_56bit(l, mm, u, c); }
    default: { int64_t *a = new int64_t[m + 1]; for (size_t i = 0; i < m; ++i) a[i] = v[i]; return flbwt::induce_bwt_64bit(a, c); }
    }
}
static void one_induce(const Text &t, string &out)
{
    size_t n = t.size();
    uint8_t *buf = (uint8_t *)malloc(n + 1);
    memcpy(buf, t.data(), n);
    buf[n] = 0;
    Witness wt(t);
    vector<size_t> st = stars(t);
    static const int W[5] = {32, 40, 48, 56, 64};
    vector<string> results;
    vector<string> who;
    int bad = 0;
    string why;
    int64_t vmax = 0, samax = 0;
    int bwpw = 0;
    long live = 0;
    for (int k = 0; k < 10; ++k)
    {
        int w = W[k % 5];
        int sh = k < 5 ? 0 : w == 32 ? 30 : w - 3; // the offsets start at 2^sh
        uint64_t D = k < 5 ? 0 : (1ULL << sh);
        if (n > 20000 && k >= 5) break;
        mem_reset();
        mem.fill = k % 2 ? 0xFF : 256;
        flbwt::Container *c = LIB(flbwt::extract_LMS_strings(buf, n));
        uint8_t **S = LIB(flbwt::sort_LMS_strings(buf, c));
        flbwt::PackedArray *T1 = LIB(flbwt::create_shortened_string(buf, n, c));
        flbwt::HashTable *h = c->hashtable;
        // suffix order of the S* suffixes from the witness, not from the library's sorter
        std::map<size_t, size_t> index; // S* position -> 0-based number in the text
        for (size_t x = 0; x < st.size(); ++x) index[st[x]] = x;
        vector<int64_t> v;
        for (size_t r = 0; r <= n; ++r)
        {
            size_t pos = (size_t)wt.sa[r] - 1;
            size_t x;
            if (pos == n) x = st.size();
            else { auto it = index.find(pos); if (it == index.end()) continue; x = it->second; }
            uint8_t *q = S[T1->get_value(x)]; // the substring in front of S* suffix x
            v.push_back(h->get_first_character_pointer(q) + h->get_length(q) - 1 - c->bwp_base + (int64_t)D);
        }
        if (k == 0)
        {
            samax = (int64_t)c->sa_max_value;
            bwpw = c->bwp_width;
            for (auto x : v) vmax = std::max(vmax, x);
        }
        c->bwp_base = (uint8_t *)((uintptr_t)c->bwp_base - D);
        if (D) c->bwp_width = flbwt::position_of_msb(D + c->sa_max_value);
        c->sa_max_value += D;
        LIBV(free(S));
        LIBV(delete T1);
        flbwt::BWT_result *b = LIB(induce(w, v, c));
        if (b && b->last <= n) b->BWT[b->last] = 0; // that row carries no information
        string res = result(b, n);
        drop(b);
        LIBV(delete c);
        bad += mem.bad;
        if (mem.bad) why = mem.why;
        live += mem.live;
        string name = to_string(w) + (D ? "+" : "");
        size_t x = 0;
        while (x < results.size() && results[x] != res) ++x;
        if (x == results.size()) { results.push_back(res); who.push_back(""); }
        who[x] += name + " ";
    }
    string rs = "[", ws = "[";
    for (size_t x = 0; x < results.size(); ++x) { rs += (x ? "," : "") + results[x]; ws += (x ? ",\"" : "\"") + who[x] + "\""; }
    out += "{\"ev\":\"induce\",\"T\":" + arr(t.data(), n) + ",\"sa\":" + nums(wt.sa) + ",\"isa\":" + nums(wt.isa) + ",\"results\":" + rs + "],\"who\":" + ws + "],\"vmax\":" + to_string(vmax) + ",\"samax\":" + to_string(samax) +
           ",\"bwpw\":" + to_string(bwpw) + ",\"live\":" + to_string(live) + ",\"bad\":" + to_string(bad) + ",\"why\":\"" + why + "\"}\n";
    free(buf);
    mem_reset();
}
void mode_induce(const Args &A, vector<Case> &cs)
{
    OneText f = one_induce;
    if (A.thorough) plan(A, cs, f, 12, 8, 6, {{12, 200}, {40, 300}, {150, 300}, {700, 200}, {3000, 100}, {20000, 40}, {100000, 12}});
    else if (!interposed()) plan(A, cs, f, 6, 4, 3, {{40, 30}, {300, 20}, {3000, 8}});
    else plan(A, cs, f, 9, 6, 4, {{12, 60}, {40, 80}, {150, 80}, {700, 40}, {3000, 30}, {20000, 4}});
    add_special(A, cs, f, A.thorough ? 1000000 : interposed() ? 140000 : 10000);
}

// ------------------------------------------------------------------ forced widths
static void one_widths(const Text &t, string &out)
{
    size_t n = t.size();
    uint8_t *buf = (uint8_t *)malloc(n + 1);
    memcpy(buf, t.data(), n);
    buf[n] = 0;
    static const uint64_t V[6] = {0, (1ULL << 31) - 1, (1ULL << 39) - 1, (1ULL << 47) - 1, (1ULL << 55) - 1, (1ULL << 63) - 1};
    vector<string> results, who;
    vector<int> widths;
    int bad = 0;
    string why;
    uint64_t needed = 0, computed = 0;
    { // the largest value the sorter and the inducing routine get to store
        mem_reset();
        flbwt::Container *c = LIB(flbwt::extract_LMS_strings(buf, n));
        uint8_t **S = LIB(flbwt::sort_LMS_strings(buf, c));
        uint64_t u = c->num_of_unique_substrings;
        needed = c->num_of_substrings + 1;
        for (uint64_t k = 0; k <= u + 1; ++k)
            needed = std::max<uint64_t>(needed, (uint64_t)(c->hashtable->get_first_character_pointer(S[k]) + c->hashtable->get_length(S[k]) - 1 - c->bwp_base));
        LIBV(free(S));
        LIBV(delete c);
    }
    for (int k = 0; k < 6; ++k)
    {
        mem_reset();
        mem.fill = k % 2 ? 256 : 0xFF;
        force_max = V[k];
        seen_width = 0;
        string ex;
        flbwt::BWT_result *b = NULL;
        enter();
        try { b = flbwt::bwt_string(buf, n, false); leave(); }
        catch (const std::exception &e) { leave(); ex = e.what(); }
        force_max = 0;
        if (b && b->BWT && b->last <= n) b->BWT[b->last] = 0;
        string res = result(b, n);
        drop(b);
        bad += mem.bad;
        if (mem.bad) why = mem.why;
        widths.push_back(seen_width);
        if (k == 0) computed = seen_max;
        size_t x = 0;
        while (x < results.size() && results[x] != res) ++x;
        if (x == results.size()) { results.push_back(res); who.push_back(""); }
        who[x] += to_string(seen_width) + " ";
    }
    string rs = "[", ws = "[";
    for (size_t x = 0; x < results.size(); ++x) { rs += (x ? "," : "") + results[x]; ws += (x ? ",\"" : "\"") + who[x] + "\""; }
    out += "{\"ev\":\"widths\",\"T\":" + arr(t.data(), std::min<size_t>(n, 200)) + ",\"n\":" + to_string(n) + ",\"needed\":" + to_string(std::min<uint64_t>(needed, 2000000000)) + ",\"computed\":" + to_string(std::min<uint64_t>(computed, 2000000000)) + ",\"results\":" + rs + "],\"who\":" + ws + "],\"widths\":" + nums(widths) + ",\"bad\":" + to_string(bad) + ",\"why\":\"" + why + "\"}\n";
    free(buf);
    mem_reset();
}
void mode_widths(const Args &A, vector<Case> &cs)
{
    OneText f = one_widths;
    if (A.thorough) plan(A, cs, f, 12, 8, 6, {{12, 200}, {40, 300}, {150, 300}, {700, 200}, {3000, 100}, {20000, 40}, {100000, 12}});
    else if (!interposed()) plan(A, cs, f, 6, 4, 3, {{40, 30}, {300, 20}, {3000, 8}});
    else plan(A, cs, f, 9, 6, 4, {{12, 60}, {40, 80}, {150, 80}, {700, 40}, {3000, 30}, {20000, 4}});
    add_special(A, cs, f, A.thorough ? 1000000 : interposed() ? 140000 : 10000);
    // which width is chosen for which largest value
    cs.push_back({"{\"choices\":1}", [=](string &o) {
                      std::set<uint64_t> s;
                      Rng r(A.seed);
                      for (int b = 5; b < 64; ++b)
                      {
                          uint64_t p = 1ULL << b;
                          s.insert(p); s.insert(p - 1);
                          if (b < 63 || A.thorough) s.insert(p + 1);
                          s.insert(p - 1 - r.below(p / 2));
                      }
                      s.erase(1ULL << 63);
                      string ops;
                      uint8_t buf[12] = {3, 1, 2, 1, 3, 2, 1, 2, 3, 1, 0, 0};
                      for (uint64_t v : s)
                      {
                          if (v >= (1ULL << 63)) continue;
                          force_max = v;
                          seen_width = 0;
                          flbwt::BWT_result *b = LIB(flbwt::bwt_string(buf, 10, false));
                          force_max = 0;
                          drop(b);
                          ops += string(ops.empty() ? "" : ",") + "[" + bytes8(v) + "," + to_string(seen_width) + "]";
                      }
                      o += "{\"ev\":\"choice\",\"ops\":[" + ops + "]" + tail() + "}\n";
                  }});
}

// ------------------------------------------------------------------ suffix sorters
// x: names, the last one 0 and unique
static void one_sais(const vector<uint32_t> &x, uint64_t seed, string &out)
{
    Rng r(seed);
    size_t m = x.size();
    uint64_t mx = *std::max_element(x.begin(), x.end());
    vector<int64_t> xi(x.begin(), x.end());
    vector<int32_t> sa, isa;
    suffix_array(xi.data(), m, sa, isa);
    for (auto &v : sa) ++v;
    for (auto &v : isa) ++v;
    static const int W[5] = {32, 40, 48, 56, 64};
    vector<string> results, who;
    int bad = 0, changed = 0, outside = 0;
    string why;
    long live = 0;
    for (int k = 0; k < 10; ++k)
    {
        int w = W[k % 5];
        int need = mx ? 64 - __builtin_clzll(mx) : 1;
        int cs = need + (int)(k < 5 ? 0 : r.below((uint64_t)(w - need)));
        if (cs >= w) cs = w - 1;
        if (cs < need) continue;
        uint64_t kk = mx + 1 + (k < 5 ? 0 : r.below(5));
        uint64_t fs = k < 5 ? 0 : (r.below(3) == 0 ? 0 : r.below(3 * m + 8));
        mem_reset();
        mem.fill = k % 2 ? 0xFF : 256;
        // cell 0 is not part of the sequence
        flbwt::PackedArray *P = new flbwt::PackedArray(m + 1, (uint8_t)cs);
        size_t words = ((size_t)cs * (m + 1) + 63) / 64;
        for (size_t i = 0; i < words; ++i) P->get_raw_arr_pointer()[i] = r.next();
        P->set_value(0, r.next() & ((cs >= 64) ? ~0ULL : ((1ULL << cs) - 1)));
        for (size_t i = 0; i < m; ++i) P->set_value(i + 1, x[i]);
        vector<uint64_t> before(P->get_raw_arr_pointer(), P->get_raw_arr_pointer() + words);
        size_t cap = m + fs;
        vector<int64_t> got(m);
        const uint8_t *T = (const uint8_t *)P->get_raw_arr_pointer();
        const size_t G = 4; // guard cells on both sides
        auto guards = [&](auto *a) { for (size_t i = 0; i < G; ++i) { a[i] = (decltype(a[0] + 0))0x5B; a[G + cap + i] = (decltype(a[0] + 0))0x5B; } for (size_t i = 0; i < cap; ++i) a[G + i] = (std::remove_reference_t<decltype(a[0])>)r.next(); };
        auto intact = [&](auto *a) { for (size_t i = 0; i < G; ++i) if (a[i] != 0x5B || a[G + cap + i] != 0x5B) ++outside; };
        if (w == 32)
        {
            int32_t *a = new int32_t[cap + 2 * G];
            guards(a);
            LIBV(flbwt::sais_32bit(T, a + G, fs, m, kk, (uint8_t)cs));
            intact(a);
            for (size_t i = 0; i < m; ++i) got[i] = a[G + i];
            delete[] a;
        }
        else if (w == 64)
        {
            int64_t *a = new int64_t[cap + 2 * G];
            guards(a);
            LIBV(flbwt::sais_64bit(T, a + G, fs, m, kk, (uint8_t)cs));
            intact(a);
            for (size_t i = 0; i < m; ++i) got[i] = a[G + i];
            delete[] a;
        }
        else
        {
            uint32_t *l = new uint32_t[cap + 2 * G];
            uint16_t *mm = new uint16_t[cap + 2 * G];
            int8_t *u = new int8_t[cap + 2 * G];
            int16_t *u16 = new int16_t[cap + 2 * G];
            guards(l); guards(mm); guards(u); guards(u16);
            if (w == 40) LIBV(flbwt::sais_40bit(T, NULL, NULL, l + G, u + G, fs, m, kk, (uint8_t)cs));
            if (w == 48) LIBV(flbwt::sais_48bit(T, NULL, NULL, l + G, u16 + G, fs, m, kk, (uint8_t)cs));
            if (w == 56) LIBV(flbwt::sais_56bit(T, NULL, NULL, NULL, l + G, mm + G, u + G, fs, m, kk, (uint8_t)cs));
            intact(l);
            if (w == 40) intact(u);
            if (w == 48) intact(u16);
            if (w == 56) { intact(mm); intact(u); }
            for (size_t i = 0; i < m; ++i)
                got[i] = w == 40 ? flbwt::get_40bit_value(l + G, u + G, (int64_t)i) : w == 48 ? flbwt::get_48bit_value(l + G, u16 + G, (int64_t)i) : flbwt::get_56bit_value(l + G, mm + G, u + G, (int64_t)i);
            delete[] l; delete[] mm; delete[] u; delete[] u16;
        }
        if (memcmp(before.data(), P->get_raw_arr_pointer(), words * 8) != 0) ++changed;
        delete P;
        bad += mem.bad;
        if (mem.bad) why = mem.why;
        live += mem.live;
        for (auto &v : got) v = (v < -1000000000 || v > 1000000000) ? -7 : v;
        string res = nums(got);
        size_t q = 0;
        while (q < results.size() && results[q] != res) ++q;
        if (q == results.size()) { results.push_back(res); who.push_back(""); }
        who[q] += to_string(w) + "/" + to_string(cs) + "/" + to_string(fs) + " ";
    }
    string rs = "[", ws = "[";
    for (size_t q = 0; q < results.size(); ++q) { rs += (q ? "," : "") + results[q]; ws += (q ? ",\"" : "\"") + who[q] + "\""; }
    out += "{\"ev\":\"sais\",\"X\":" + nums(x) + ",\"sa\":" + nums(sa) + ",\"isa\":" + nums(isa) + ",\"results\":" + rs + "],\"who\":" + ws + "],\"changed\":" + to_string(changed) + ",\"outside\":" + to_string(outside) +
           ",\"live\":" + to_string(live) + ",\"bad\":" + to_string(bad) + ",\"why\":\"" + why + "\"}\n";
    mem_reset();
}
// sequences of names that take more than 2^32 bits, of a shape the specification knows by heart
static void long_sais(const string &shape, int w, uint64_t fs, string &out)
{
    int cs = w == 64 ? 60 : w - 1;
    uint64_t n = ((1ULL << 32) + 4096) / (uint64_t)cs, a, b = 0;
    if (shape == "island") { a = n / 5; b = n - a - 2; }
    else if (shape == "pairs") { a = n / 2; n = 2 * a + 1; }
    else a = n - 1;
    mem_reset();
    mem.poison = false;
    flbwt::PackedArray *P = new flbwt::PackedArray(n + 1, (uint8_t)cs);
    uint64_t words = (uint64_t)cs * (n + 1) / 64 + 1, *raw = P->get_raw_arr_pointer();
    auto fill = [&]() {
        P->set_value(0, 5);
        for (uint64_t i = 0; i < n; ++i)
            P->set_value(i + 1, i == n - 1 ? 0 : shape == "island" ? (i == a ? 2 : 1) : shape == "pairs" ? 2 - i % 2 : 1);
    };
    fill();
    auto sum = [&]() { uint64_t h = 0; for (uint64_t i = 0; i + 1 < words; ++i) h = (h ^ raw[i]) * 0x9E3779B97F4A7C15ULL + (h >> 31); return h; };
    uint64_t before = sum();
    const uint8_t *T = (const uint8_t *)raw;
    size_t cap = n + fs;
    int32_t *a32 = nullptr;
    int64_t *a64 = nullptr;
    uint32_t *l = nullptr;
    uint16_t *m16 = nullptr;
    int16_t *u16 = nullptr;
    int8_t *u8 = nullptr;
    if (w == 32) { a32 = new int32_t[cap]; LIBV(flbwt::sais_32bit(T, a32, fs, n, 3, (uint8_t)cs)); }
    else if (w == 64) { a64 = new int64_t[cap]; LIBV(flbwt::sais_64bit(T, a64, fs, n, 3, (uint8_t)cs)); }
    else
    {
        l = new uint32_t[cap];
        if (w == 40) { u8 = new int8_t[cap]; LIBV(flbwt::sais_40bit(T, NULL, NULL, l, u8, fs, n, 3, (uint8_t)cs)); }
        if (w == 48) { u16 = new int16_t[cap]; LIBV(flbwt::sais_48bit(T, NULL, NULL, l, u16, fs, n, 3, (uint8_t)cs)); }
        if (w == 56) { m16 = new uint16_t[cap]; u8 = new int8_t[cap]; LIBV(flbwt::sais_56bit(T, NULL, NULL, NULL, l, m16, u8, fs, n, 3, (uint8_t)cs)); }
    }
    int changed = sum() != before;
    auto at = [&](uint64_t i) { return w == 32 ? (int64_t)a32[i] : w == 64 ? a64[i] : w == 40 ? flbwt::get_40bit_value(l, u8, (int64_t)i) : w == 48 ? flbwt::get_48bit_value(l, u16, (int64_t)i) : flbwt::get_56bit_value(l, m16, u8, (int64_t)i); };
    string runs;
    int few = 0;
    for (uint64_t i = 0; i < n && few < 50; ++few)
    { // as long as it can be, with the step of the first two
        int64_t v = at(i), d = i + 1 < n ? at(i + 1) - v : 0;
        uint64_t k = 1;
        while (i + k < n && at(i + k) - at(i + k - 1) == d) ++k;
        if (k == 1) d = 0;
        auto show = [](int64_t x) { return to_string(x < -2000000000 || x > 2000000000 ? 2000000000 : x); };
        runs += string(runs.empty() ? "" : ",") + "[" + show(v) + "," + show(d) + "," + to_string(k) + "]";
        i += k;
    }
    delete P;
    delete[] a32; delete[] a64; delete[] l; delete[] m16; delete[] u16; delete[] u8;
    out += "{\"ev\":\"long\",\"shape\":\"" + shape + "\",\"w\":" + to_string(w) + ",\"cs\":" + to_string(cs) + ",\"n\":" + to_string(n) + ",\"a\":" + to_string(a) + ",\"b\":" + to_string(b) + ",\"runs\":[" + runs + "],\"changed\":" + to_string(changed) +
           ",\"live\":" + to_string(mem.live) + ",\"bad\":" + to_string(mem.bad) + ",\"why\":\"" + mem.why + "\"}\n";
    mem_reset();
}
void mode_sais(const Args &A, vector<Case> &cs)
{
    if (interposed())
    {
        for (int w : {56, 48, 40, 64, 32})
            for (const char *shape : {"island", "pairs", "plain"})
                if (A.thorough || shape[1] != 'l')
                    for (uint64_t fs : {0, 7})
                        if (A.thorough || fs == 0)
                            cs.push_back({string("{\"long\":\"") + shape + "\",\"w\":" + to_string(w) + "}", [=](string &o) { long_sais(shape, w, fs, o); }, 250});
    }
    auto bulk = [&](int k, int maxn) { // every sequence of n-1 names 1..k and a final 0
        for (int n = 1; n <= maxn; ++n)
        {
            uint64_t all = power((uint64_t)k, n - 1);
            for (uint64_t from = 0; from < all; from += 128)
                cs.push_back({"{\"names\":" + to_string(k) + ",\"n\":" + to_string(n) + ",\"from\":" + to_string(from) + "}", [=](string &o) {
                                  for (uint64_t c = from; c < std::min(all, from + 128); ++c)
                                  {
                                      Text t = letters(c, k, n - 1);
                                      vector<uint32_t> x;
                                      for (auto v : t) x.push_back(v + 1u);
                                      x.push_back(0);
                                      one_sais(x, A.seed * 31 + c + (uint64_t)n * 1000, o);
                                  }
                              }});
        }
    };
    bool quick = !A.thorough, small = !interposed();
    bulk(2, small ? 8 : quick ? 12 : 15);
    bulk(3, small ? 6 : quick ? 8 : 10);
    bulk(5, small ? 4 : quick ? 5 : 7);
    if (!small)
        for (int k = 0; k < (quick ? 2 : 8); ++k) // names of more than two bytes: many, or few and far apart
            cs.push_back({"{\"sais wide names\":" + to_string(k) + "}", [=](string &o) {
                              Rng r(A.seed * 11 + (uint64_t)k);
                              vector<uint32_t> x, few;
                              for (int i = 0; i < 9; ++i) few.push_back(1 + (uint32_t)r.below(70000));
                              for (size_t i = 0; i < (k % 2 ? 30000u : 75000u); ++i) x.push_back(k % 2 ? few[r.below(9)] : 1 + (uint32_t)r.below(70000));
                              x[7] = 70000;
                              x.push_back(0);
                              one_sais(x, A.seed + (uint64_t)k, o);
                          }});
    vector<std::pair<size_t, int>> sizes = small ? vector<std::pair<size_t, int>>{{30, 40}, {300, 40}, {2000, 20}}
                                         : quick ? vector<std::pair<size_t, int>>{{30, 100}, {120, 100}, {500, 60}, {3000, 40}, {20000, 4}}
                                                 : vector<std::pair<size_t, int>>{{30, 400}, {120, 400}, {500, 300}, {3000, 120}, {20000, 40}, {200000, 10}};
    for (auto &s : sizes)
        for (int k = 0; k < s.second; ++k)
            cs.push_back({"{\"sais family\":" + to_string(k) + ",\"n\":" + to_string(s.first) + "}", [=](string &o) {
                              Rng r(A.seed * 7 + (uint64_t)k);
                              vector<uint32_t> x;
                              if (k % 4 == 3)
                              { // large names
                                  uint64_t lim = k % 8 == 3 ? s.first : 2 + r.below(40);
                                  for (size_t i = 0; i + 1 < s.first; ++i) x.push_back(1 + (uint32_t)r.below(lim));
                              }
                              else
                                  for (auto c : family(k, s.first - r.below(s.first / 4 + 1), A.seed * 10 + (uint64_t)k)) x.push_back(c + 1u);
                              x.push_back(0);
                              one_sais(x, A.seed + (uint64_t)k, o);
                          }});
}
