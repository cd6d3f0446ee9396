// Texts.
#pragma once
#include "hx.hpp"
#include <algorithm>
#include <string.h>
typedef std::vector<uint8_t> Text;
struct Named
{
    std::string name;
    std::function<Text()> make;
};

inline Text fibonacci(size_t n, uint8_t a, uint8_t b)
{
    Text x{a}, y{a, b};
    while (y.size() < n) { Text z = y; z.insert(z.end(), x.begin(), x.end()); x = y; y = z; }
    y.resize(n);
    return y;
}
inline Text thue_morse(size_t n, uint8_t a, uint8_t b)
{
    Text t(n);
    for (size_t i = 0; i < n; ++i) t[i] = __builtin_popcountll(i) & 1 ? b : a;
    return t;
}
inline Text random_text(hx::Rng &r, size_t n, const std::vector<uint8_t> &al)
{
    Text t(n);
    for (auto &c : t) c = al[r.below(al.size())];
    return t;
}
inline std::vector<uint8_t> some_alphabet(hx::Rng &r)
{
    static const int sizes[] = {1, 2, 2, 3, 4, 5, 8, 16, 64, 200, 256};
    size_t k = (size_t)sizes[r.below(11)];
    std::vector<uint8_t> all(256);
    for (int i = 0; i < 256; ++i) all[i] = (uint8_t)i;
    for (size_t i = 255; i > 0; --i) std::swap(all[i], all[r.below(i + 1)]);
    all.resize(k);
    if (r.below(2)) all[0] = 0;
    if (r.below(2)) all[k - 1] = 255;
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());
    return all;
}
// a text over {lo, hi} whose S* substrings have the given lengths: S run, then L run
inline Text with_substrings(const std::vector<size_t> &lens, uint8_t lo, uint8_t hi, size_t head, size_t tail)
{
    Text t(head, hi);
    for (size_t L : lens)
    { // lo^x hi^y with x + y + 1 = L (the next lo is the last character)
        size_t y = (L - 1) / 3 + 1, x = L - 1 - y;
        if (x < 1) { x = 1; y = L - 2; }
        t.insert(t.end(), x, lo);
        t.insert(t.end(), y, hi);
    }
    t.insert(t.end(), 1, lo);
    t.insert(t.end(), tail, hi);
    return t;
}
// de Bruijn like sequence: every word of length k over the alphabet
inline Text de_bruijn(int k, const std::vector<uint8_t> &al)
{
    Text out;
    int s = (int)al.size();
    std::vector<int> a((size_t)k * s + 1, 0);
    std::function<void(int, int)> db = [&](int t, int p) {
        if (t > k)
        {
            if (k % p == 0) for (int j = 1; j <= p; ++j) out.push_back(al[a[j]]);
        }
        else
        {
            a[t] = a[t - p];
            db(t + 1, p);
            for (int j = a[t - p] + 1; j < s; ++j) { a[t] = j; db(t + 1, t); }
        }
    };
    db(1, 1);
    return out;
}
// structured family number f of about n bytes
inline Text family(int f, size_t n, uint64_t seed)
{
    hx::Rng r(seed * 1000003 + (uint64_t)f);
    std::vector<uint8_t> al = some_alphabet(r);
    uint8_t a = (uint8_t)r.below(255), b = (uint8_t)(a + 1 + r.below(255 - a));
    if (n == 0) n = 1;
    switch (f % 20)
    {
    case 0: return random_text(r, n, al);
    case 1: return fibonacci(n, a, b);
    case 2: return fibonacci(n, b, a);
    case 3: return thue_morse(n, a, b);
    case 4: return Text(n, (uint8_t)(r.below(3) == 0 ? 0 : r.below(256)));
    case 5: { Text t(n, a); t[n - 1] = b; return t; }
    case 6: { Text t(n, b); t[n - 1] = a; return t; }
    case 7: { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = (uint8_t)(i * 256 / n); return t; }       // increasing
    case 8: { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = (uint8_t)(255 - i * 256 / n); return t; } // decreasing
    case 9: { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = (uint8_t)i; return t; }                    // saw
    case 10: { // period with perturbations
        Text p = random_text(r, 1 + r.below(40), al), t(n);
        for (size_t i = 0; i < n; ++i) t[i] = p[i % p.size()];
        for (size_t k = 0; k < 1 + n / 500; ++k) t[r.below(n)] = al[r.below(al.size())];
        return t;
    }
    case 11: { // runs
        Text t;
        while (t.size() < n) t.insert(t.end(), 1 + r.below(1 + n / 10), al[r.below(al.size())]);
        t.resize(n);
        return t;
    }
    case 12: { // exact repetition of a block
        Text p = random_text(r, 1 + r.below(n / 2 + 1), al), t(n);
        for (size_t i = 0; i < n; ++i) t[i] = p[i % p.size()];
        return t;
    }
    case 13: { // nested repetition
        Text t = random_text(r, 1 + r.below(6), al);
        while (t.size() < n)
        {
            Text u = t;
            if (r.below(2)) u.push_back(al[r.below(al.size())]);
            t.insert(t.end(), u.begin(), u.end());
        }
        t.resize(n);
        return t;
    }
    case 14: { Text t(n); for (size_t i = 0; i < n; ++i) t[i] = (i % 2) ? b : a; return t; } // shortest S* substrings
    case 15: { // words from a small dictionary
        std::vector<Text> w;
        for (int k = 0; k < 12; ++k) w.push_back(random_text(r, 2 + r.below(9), al));
        Text t;
        while (t.size() < n) { const Text &x = w[r.below(w.size())]; t.insert(t.end(), x.begin(), x.end()); t.push_back(32); }
        t.resize(n);
        return t;
    }
    case 16: { Text t = random_text(r, n, {0, 255}); return t; }
    case 17: { Text t = random_text(r, n, {0, 1, 254, 255}); t[0] = 0; t[n - 1] = 0; return t; }
    case 18: { // substrings of many lengths
        std::vector<size_t> l;
        size_t tot = 0;
        while (tot < n) { size_t k = 3 + r.below(60); l.push_back(k); tot += k - 1; }
        Text t = with_substrings(l, a, b, r.below(5), r.below(5));
        t.resize(n);
        return t;
    }
    default: { // few distinct bytes, skewed
        Text t(n);
        for (auto &c : t) { uint64_t k = 0; while (k + 1 < al.size() && r.below(4) == 0) ++k; c = al[k]; }
        return t;
    }
    }
}

// suffix array of t + end marker by prefix doubling; 0-based, n+1 entries
inline void suffix_array(const int64_t *x, size_t m, std::vector<int32_t> &sa, std::vector<int32_t> &isa)
{
    sa.resize(m);
    isa.resize(m);
    std::vector<int64_t> key(m);
    std::vector<int32_t> tmp(m);
    for (size_t i = 0; i < m; ++i) sa[i] = (int32_t)i;
    std::sort(sa.begin(), sa.end(), [&](int32_t a, int32_t b) { return x[a] < x[b]; });
    isa[sa[0]] = 0;
    for (size_t i = 1; i < m; ++i) isa[sa[i]] = isa[sa[i - 1]] + (x[sa[i - 1]] != x[sa[i]]);
    for (size_t h = 1; h < m && isa[sa[m - 1]] != (int32_t)m - 1; h *= 2)
    {
        for (size_t i = 0; i < m; ++i) key[i] = (int64_t)isa[i] * (int64_t)(m + 1) + (i + h < m ? isa[i + h] + 1 : 0);
        std::sort(sa.begin(), sa.end(), [&](int32_t a, int32_t b) { return key[a] < key[b]; });
        tmp[sa[0]] = 0;
        for (size_t i = 1; i < m; ++i) tmp[sa[i]] = tmp[sa[i - 1]] + (key[sa[i - 1]] != key[sa[i]]);
        isa.swap(tmp);
    }
}
struct Witness
{
    std::vector<int32_t> sa, isa; // 1-based
    explicit Witness(const Text &t)
    {
        std::vector<int64_t> x(t.begin(), t.end());
        x.push_back(-1);
        suffix_array(x.data(), x.size(), sa, isa);
        for (auto &v : sa) ++v;
        for (auto &v : isa) ++v;
    }
};

// Texts in quantity.  Tiny ones: every text of n letters over k letters, under an
// order-preserving assignment of bytes that keeps letter 0 at byte 0.
inline std::vector<uint8_t> embedding(int k, hx::Rng &r)
{
    std::vector<uint8_t> e(1, 0);
    while ((int)e.size() < k)
    {
        uint8_t c = (uint8_t)(r.below(4) == 0 ? 255 : r.below(4) == 0 ? 1 : 1 + r.below(255));
        if (std::find(e.begin(), e.end(), c) == e.end()) e.push_back(c);
    }
    std::sort(e.begin(), e.end());
    return e;
}
inline Text letters(uint64_t code, int k, int n)
{
    Text t((size_t)n);
    for (int i = 0; i < n; ++i) { t[i] = (uint8_t)(code % k); code /= k; }
    return t;
}
inline uint64_t power(uint64_t k, int n)
{
    uint64_t v = 1;
    while (n--) v *= k;
    return v;
}
