// One transform of a text of more than 4 GB, given as repeated words and reported as runs.
//   huge string keep|give OUT  byte[.byte...]:count,...  seconds
//   huge file DIR OUT          byte[.byte...]:count,...  seconds
//   huge short DIR:LIMIT OUT   the same, no file may grow beyond LIMIT bytes
//   huge decomp|names - OUT    the first stages, byte by byte runs only
//   huge induce WIDTH OUT      the stages one by one, the last at the given width
// Numbers are written as [hi, lo] with lo < 2^30.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <new>
#include <string>
#include <utility>
#include <vector>
#include "flbwt.hpp"
#include "induce40bit.hpp"
#include "induce48bit.hpp"
#include "induce56bit.hpp"
#include "induce64bit.hpp"
typedef std::vector<std::pair<int, uint64_t>> Runs;
typedef std::vector<std::pair<std::string, uint64_t>> Words;
static std::string num(uint64_t v) { return "[" + std::to_string(v >> 30) + "," + std::to_string(v & ((1ULL << 30) - 1)) + "]"; }
static std::string json(const Runs &r)
{
    std::string s = "[";
    for (size_t i = 0; i < r.size(); ++i) s += (i ? ",[" : "[") + std::to_string(r[i].first) + "," + num(r[i].second) + "]";
    return s + "]";
}
static std::string json(const Words &t)
{
    std::string s = "[";
    for (size_t i = 0; i < t.size(); ++i)
    {
        s += i ? ",[[" : "[[";
        for (size_t k = 0; k < t[i].first.size(); ++k) s += (k ? "," : "") + std::to_string((int)(uint8_t)t[i].first[k]);
        s += "]," + num(t[i].second) + "]";
    }
    return s + "]";
}
// a text, piece by piece
template <class F> static void spell(const Words &t, F f)
{
    std::string b;
    for (auto &w : t)
    {
        size_t times = (1 << 20) / w.first.size() + 1;
        b.clear();
        for (size_t k = 0; k < times; ++k) b += w.first;
        for (uint64_t left = w.second; left > 0;)
        {
            uint64_t k = std::min<uint64_t>(left, times);
            f(b.data(), (size_t)k * w.first.size());
            left -= k;
        }
    }
}
static void add(Runs &r, const uint8_t *p, size_t n) // as long as the runs stay few
{
    size_t i = 0;
    while (i < n && r.size() < 5000)
    {
        size_t k = i + 1;
        uint64_t w;
        memset(&w, p[i], 8);
        while (k + 8 <= n && memcmp(p + k, &w, 8) == 0) k += 8;
        while (k < n && p[k] == p[i]) ++k;
        if (!r.empty() && r.back().first == p[i]) r.back().second += k - i;
        else r.push_back(std::make_pair((int)p[i], (uint64_t)(k - i)));
        i = k;
    }
}
static Words parse(const char *s)
{
    Words r;
    while (*s)
    {
        std::string w;
        char *e = (char *)s - 1;
        do w.push_back((char)strtol(e + 1, &e, 10)); while (*e == '.');
        uint64_t c = strtoull(e + 1, &e, 10);
        r.push_back(std::make_pair(w, c));
        s = *e ? e + 1 : e;
    }
    return r;
}
static void emit(const std::string &out, const char *kind, const Words &text, const char *end, uint64_t last, const Runs &rows, int same)
{
    FILE *f = fopen(out.c_str(), "w");
    if (!f) _exit(95);
    fprintf(f, "{\"ev\":\"huge\",\"kind\":\"%s\",\"text\":%s,\"end\":\"%s\",\"last\":%s,\"rows\":%s,\"same\":%d}\n", kind, json(text).c_str(), end, num(last).c_str(), json(rows).c_str(), same);
    fclose(f);
}
// ------------------------------------------------------------------ the stages
static std::string record(flbwt::HashTable *h, uint8_t *r, uint64_t most) // the characters of a record as runs
{
    uint64_t l = h->get_length(r);
    Runs q;
    if (l <= most) add(q, h->get_first_character_pointer(r), l);
    return json(q);
}
template <class T> static std::string counts(const T &c)
{
    std::string s = "[";
    for (int b = 0; b < 256; ++b)
        if (c[b + 1]) s += (s.size() > 1 ? ",[" : "[") + std::to_string(b) + "," + num((uint64_t)c[b + 1]) + "]";
    return s + "]";
}
static std::string dictionary(flbwt::HashTable *h, uint64_t n)
{
    std::string s = "[";
    uint64_t guard = 0;
    for (uint64_t i = 0; i < h->HTSIZE; ++i)
        for (uint64_t p = h->head[i]; p != 0 && guard++ < 1000;)
        {
            uint8_t *r = &h->buf[p];
            uint64_t l = h->get_length(r);
            if (l == 0) break;
            if (l == 2) { p = h->get_pointer(r); continue; }
            s += (s.size() > 1 ? "," : "") + record(h, r, n + 1);
            p += h->string_info_length(r, l);
        }
    return s + "]";
}
static bool intact(const Words &text, const uint8_t *T, uint64_t n)
{
    bool same = T[n] == 0;
    uint64_t at = 0;
    spell(text, [&](const char *p, size_t k) { if (memcmp(T + at, p, k) != 0) same = false; at += k; });
    return same;
}
static void stages(const std::string &kind, const Words &text, uint8_t *T, uint64_t n, const std::string &out)
{
    flbwt::Container *c = flbwt::extract_LMS_strings(T, n);
    flbwt::HashTable *h = c->hashtable;
    uint64_t u = c->num_of_unique_substrings;
    std::string s = "{\"ev\":\"stages\",\"kind\":\"" + kind + "\",\"text\":" + json(text);
    if (kind == "decomp")
        s += ",\"nsub\":" + num(c->num_of_substrings) + ",\"nuniq\":" + num(u) + ",\"head\":" + num(c->head_string_end) + ",\"M\":" + counts(c->M) + ",\"NL\":" + counts(c->NL) + ",\"C\":" + counts(c->C) +
             ",\"strs\":" + dictionary(h, n);
    else if (u < 1000)
    {
        uint8_t **S = flbwt::sort_LMS_strings(T, c);
        flbwt::PackedArray *T1 = flbwt::create_shortened_string(T, n, c);
        std::string sorted = "[", names = "[", t1 = "[";
        for (uint64_t k = 1; k <= u; ++k)
        {
            sorted += (k > 1 ? "," : "") + record(h, S[k], n + 1);
            names += (k > 1 ? "," : "") + std::to_string(std::min<uint64_t>(h->get_name(S[k]), 2000000000));
        }
        for (uint64_t k = 0; k < (uint64_t)T1->get_length() && k < 1000; ++k) t1 += (k ? "," : "") + std::to_string(std::min<uint64_t>(T1->get_value(k), 2000000000));
        s += ",\"sorted\":" + sorted + "],\"names\":" + names + "],\"headrec\":" + record(h, S[u + 1], n + 1) + ",\"headname\":" + std::to_string(std::min<uint64_t>(h->get_name(S[u + 1]), 2000000000)) + ",\"T1\":" + t1 + "]";
    }
    else s += ",\"sorted\":[],\"names\":[],\"headrec\":[],\"headname\":0,\"T1\":[]";
    s += std::string(",\"same\":") + (intact(text, T, n) ? "1" : "0") + "}\n";
    FILE *f = fopen(out.c_str(), "w");
    if (!f) _exit(95);
    fputs(s.c_str(), f);
    fclose(f);
}
// the last stage at one width, the order of the few S* suffixes by comparison
static flbwt::BWT_result *induced(int w, uint8_t *T, uint64_t n)
{
    flbwt::Container *c = flbwt::extract_LMS_strings(T, n);
    uint8_t **S = flbwt::sort_LMS_strings(T, c);
    flbwt::PackedArray *T1 = flbwt::create_shortened_string(T, n, c);
    free(T);
    std::vector<uint64_t> x, at;
    for (uint64_t k = 0; k < c->num_of_substrings + 2; ++k) x.push_back(T1->get_value(k));
    for (uint64_t k = 1; k < x.size(); ++k) at.push_back(k);
    std::sort(at.begin(), at.end(), [&](uint64_t a, uint64_t b) { return std::lexicographical_compare(x.begin() + (long)a, x.end(), x.begin() + (long)b, x.end()); });
    uint64_t m = at.size() + 1;
    std::vector<int64_t> v;
    for (uint64_t a : at)
    {
        uint8_t *q = S[x[a - 1]];
        v.push_back((int64_t)(c->hashtable->get_first_character_pointer(q) + c->hashtable->get_length(q) - 1 - c->bwp_base));
    }
    free(S);
    delete T1;
    uint32_t *l = w == 64 ? NULL : new uint32_t[m];
    uint16_t *mid = w == 56 ? new uint16_t[m] : NULL;
    int16_t *u16 = w == 48 ? new int16_t[m] : NULL;
    int8_t *u8 = w == 40 || w == 56 ? new int8_t[m] : NULL;
    int64_t *a64 = w == 64 ? new int64_t[m] : NULL;
    for (uint64_t i = 0; i < v.size(); ++i)
    {
        if (l) l[i] = (uint32_t)v[i];
        if (mid) mid[i] = (uint16_t)(v[i] >> 32);
        if (u16) u16[i] = (int16_t)(v[i] >> 32);
        if (u8) u8[i] = (int8_t)(v[i] >> (w - 8));
        if (a64) a64[i] = v[i];
    }
    flbwt::BWT_result *b = w == 40 ? flbwt::induce_bwt_40bit(l, u8, c) : w == 48 ? flbwt::induce_bwt_48bit(l, u16, c) : w == 56 ? flbwt::induce_bwt_56bit(l, mid, u8, c) : flbwt::induce_bwt_64bit(a64, c);
    delete c;
    return b;
}
static void slow(int) { _exit(96); }
int main(int argc, char **argv)
{
    if (argc != 6) return 95;
    struct rlimit rl = {(rlim_t)atol(argv[5]), (rlim_t)atol(argv[5]) + 5};
    setrlimit(RLIMIT_CPU, &rl);
    signal(SIGXCPU, slow);
    std::string kind = argv[1], where = argv[2], out = argv[3];
    Words text = parse(argv[4]);
    uint64_t n = 0;
    for (auto &r : text) n += r.first.size() * r.second;
    if (kind != "file" && kind != "short")
    {
        uint8_t *T = (uint8_t *)malloc(n + 1);
        if (!T) return 94;
        uint64_t at = 0;
        spell(text, [&](const char *p, size_t k) { memcpy(T + at, p, k); at += k; });
        T[n] = 0;
        if (kind == "decomp" || kind == "names")
        {
            stages(kind, text, T, n, out);
            return 0;
        }
        bool give = where != "keep";
        flbwt::BWT_result *b = NULL;
        const char *end = "ok";
        try { b = kind == "induce" ? induced(atoi(argv[2]), T, n) : flbwt::bwt_string(T, n, give); }
        catch (const std::bad_alloc &) { return 94; }
        catch (...) { end = "error"; }
        Runs rows;
        uint64_t last = 0;
        if (b && b->BWT)
        {
            last = b->last;
            if (last <= n)
            {
                add(rows, b->BWT, last);
                add(rows, b->BWT + last + 1, n - last);
            }
        }
        else end = "error";
        emit(out, kind.c_str(), text, end, last, rows, give || intact(text, T, n));
        return 0;
    }
    uint64_t most = 0;
    if (kind == "short")
    {
        most = strtoull(where.c_str() + where.rfind(':') + 1, NULL, 10);
        where.erase(where.rfind(':'));
    }
    std::string in = where + "/in", o = where + "/out";
    { // zeros are holes
        int fd = open(in.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd < 0) return 95;
        uint64_t at = 0;
        bool ok = true;
        spell(text, [&](const char *p, size_t k) {
            size_t z = 0;
            while (z < k && p[z] == 0) ++z;
            if (z < k && pwrite(fd, p, k, (off_t)at) != (ssize_t)k) ok = false;
            at += k;
        });
        if (!ok) return 94;
        if (ftruncate(fd, (off_t)n) != 0) return 94;
        close(fd);
    }
    const char *end = "ok";
    if (most)
    {
        struct rlimit fl = {(rlim_t)most, RLIM_INFINITY};
        setrlimit(RLIMIT_FSIZE, &fl);
        signal(SIGXFSZ, SIG_IGN);
    }
    try { flbwt::bwt_file(in.c_str(), o.c_str()); }
    catch (const std::bad_alloc &) { return 94; }
    catch (...) { end = "error"; }
    if (most)
    {
        struct rlimit fl;
        getrlimit(RLIMIT_FSIZE, &fl);
        fl.rlim_cur = RLIM_INFINITY;
        fl.rlim_max = RLIM_INFINITY;
        setrlimit(RLIMIT_FSIZE, &fl);
    }
    Runs rows;
    uint64_t last = 0, got = 0;
    int fd = open(o.c_str(), O_RDONLY);
    if (fd >= 0)
    {
        std::vector<uint8_t> buf(1 << 22);
        ssize_t k;
        while ((k = read(fd, buf.data(), buf.size())) > 0)
        {
            size_t from = 0;
            for (; got < 8 && from < (size_t)k; ++from, ++got) last = last << 8 | buf[from];
            add(rows, buf.data() + from, (size_t)k - from);
        }
        close(fd);
    }
    emit(out, kind.c_str(), text, end, last, rows, 1);
    unlink(in.c_str());
    unlink(o.c_str());
    return 0;
}
