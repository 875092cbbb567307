// Exhaustive exploration of the machine number formats (P04).
// Reference: integer arithmetic on (sign, 40-bit mantissa, exponent).
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <stdexcept>
#include <vector>

#include "x1_arch.h"

typedef unsigned __int128 u128;
static uint64_t states, checks;
static int bad;

static void fail(const char *what, unsigned long long in, unsigned long long got, unsigned long long exp)
{
    if (bad++ < 5)
        printf("FAIL %s in=%#llo got=%#llo expected=%#llo\n", what, in, got, exp);
}

// reference pattern of a real: sign, mantissa (2^39..2^40-1, or 0), exponent of 0.1xxx
static uint64_t pat(bool neg, uint64_t m, int e)
{
    uint64_t r = 0;
    if (m)
        r = (m >> 14) << 27 | (m & 0x3fff) << 12 | (uint64_t)(e + 2048);
    if (neg)
        r ^= (1ull << 54) - 1;
    return r;
}

// exact host value m * 2^(e-40)
static long double host(bool neg, uint64_t m, int e)
{
    // built from the representation, without ldexp
    union {
        long double d;
        struct {
            uint64_t man;
            uint16_t se;
        } p;
    } u;
    memset(&u, 0, sizeof u);
    if (m) {
        int s = 0;
        while (!(m >> 63)) {
            m <<= 1;
            s++;
        }
        // value = man * 2^(se-16383-63); m*2^(e-40) with m shifted s left
        u.p.man = m;
        u.p.se  = 16383 + 63 + e - 40 - s;
    }
    if (neg)
        u.p.se |= 0x8000;
    return u.d;
}
static bool samebits(long double a, long double b)
{
    return memcmp(&a, &b, 10) == 0 || (a == 0 && b == 0);
}

static void ints(unsigned lo, unsigned hi)
{
    for (unsigned w = lo; w < hi; w++) {
        states++;
        long v = (w >> 26) ? -(long)((1u << 27) - 1 - w) : (long)w;
        int g  = x1_to_integer(w);
        if (g != v)
            fail("x1_to_integer", w, g, v);
        unsigned b   = integer_to_x1((int)v);
        unsigned exp = v == 0 ? 0 : w;
        if (b != exp)
            fail("integer_to_x1", w, b, exp);
        unsigned n = x1_negate_int(w);
        if (x1_to_integer(n) != -v || n >> 27)
            fail("x1_negate_int", w, n, ~w & 0777777777);
        unsigned a = x1_abs_int(w);
        if (x1_to_integer(a) != labs(v) || (v && a >> 26))
            fail("x1_abs_int", w, a, labs(v));
        checks += 4;
    }
}

static void intover()
{
    std::vector<long> vs;
    for (int k = 26; k <= 31; k++)
        for (long d = -3; d <= 3; d++) {
            vs.push_back((1l << k) + d);
            vs.push_back(-(1l << k) - d);
        }
    for (long v : vs) {
        if (v > 2147483647l || v < -2147483647l)
            continue;
        states++;
        checks++;
        bool ok = labs(v) <= (1 << 26) - 1;
        try {
            Word w = integer_to_x1((int)v);
            if (!ok || x1_to_integer(w) != v)
                fail("integer_to_x1 range", v, w, 0);
        } catch (std::runtime_error &) {
            if (ok)
                fail("integer_to_x1 refuses", v, 0, 0);
        }
    }
}

static std::vector<uint64_t> mantissas(int tier)
{
    std::vector<uint64_t> r;
    uint64_t top = 1ull << 39, all = (1ull << 40) - 1;
    r.push_back(top);
    r.push_back(all);
    for (int i = 0; i < 39; i++) {
        r.push_back(top | 1ull << i);
        r.push_back(all ^ 1ull << i);
        r.push_back(top | ((1ull << i) - 1));
        r.push_back(all ^ ((1ull << i) - 1));
        if (tier)
            for (int j = 0; j < i; j++) {
                r.push_back(top | 1ull << i | 1ull << j);
                r.push_back(all ^ 1ull << i ^ 1ull << j);
            }
    }
    r.push_back(top | 0x5555555555);
    r.push_back(top | 0xaaaaaaaaaa);
    return r;
}

static void reals(int tier, int elo, int ehi)
{
    auto ms = mantissas(tier);
    for (int e = elo; e < ehi; e++)
        for (uint64_t m : ms)
            for (int neg = 0; neg < 2; neg++) {
                states++;
                uint64_t p    = pat(neg, m, e);
                long double d = x1_to_ieee(p);
                if (!samebits(d, host(neg, m, e)))
                    fail("x1_to_ieee", p, 0, 0);
                uint64_t q = ieee_to_x1(host(neg, m, e));
                if (q != p)
                    fail("ieee_to_x1", p, q, p);
                if (x1_negate_real(p) != pat(!neg, m, e))
                    fail("x1_negate_real", p, x1_negate_real(p), pat(!neg, m, e));
                if (x1_abs_real(p) != pat(0, m, e))
                    fail("x1_abs_real", p, x1_abs_real(p), pat(0, m, e));
                if (x1_words_to_real(p >> 27, p & 0777777777) != p)
                    fail("x1_words_to_real", p, x1_words_to_real(p >> 27, p & 0777777777), p);
                checks += 5;
            }
}

// unnormalized patterns denote the same value as the normalized one
static void unnorm()
{
    for (int e = -2048; e < 2048; e += 1)
        for (int z = 1; z < 40; z++)
            for (int neg = 0; neg < 2; neg++) {
                states++;
                uint64_t m = (1ull << (39 - z)) | (z < 38 ? 1 : 0);
                uint64_t p = (m >> 14) << 27 | (m & 0x3fff) << 12 | (uint64_t)(e + 2048);
                if (neg)
                    p ^= (1ull << 54) - 1;
                long double d = x1_to_ieee(p);
                if (!samebits(d, host(neg, m, e)))
                    fail("x1_to_ieee unnormalized", p, 0, 0);
                uint64_t q   = ieee_to_x1(d);
                uint64_t exp = e - z < -2048 ? pat(neg, 0, 0) : pat(neg, m << z, e - z);
                if (q != exp)
                    fail("ieee_to_x1 unnormalized", p, q, exp);
                checks += 2;
            }
}

// host numbers with more than 40 bits: nearest, zero on underflow, error on overflow
static void rounding(int tier, int part, int parts)
{
    auto ms                 = mantissas(tier);
    static const int elow[] = { 0, 1, 0x3fffff, 0x400000, 0x7ffffe, 0x7fffff, 0x800000, 0x800001, 0xfffffe, 0xffffff };
    std::vector<int> es;
    for (int e = -16300; e <= 16300; e += 163)
        es.push_back(e);
    for (int b : { -2048, 2047, 0, 26, 40, 64 })
        for (int d = -4; d <= 4; d++)
            es.push_back(b + d);
    for (size_t k = part; k < es.size(); k += parts)
        for (uint64_t m : ms)
            for (int low : elow)
                for (int neg = 0; neg < 2; neg++) {
                    int e = es[k];
                    states++;
                    // value: (m + low/2^24) * 2^(e-40)
                    union {
                        long double d;
                        struct {
                            uint64_t man;
                            uint16_t se;
                        } p;
                    } u;
                    memset(&u, 0, sizeof u);
                    u.p.man = m << 24 | low;
                    u.p.se  = (16383 - 1 + e) | (neg ? 0x8000 : 0);
                    uint64_t rm = m + (low >= 0x800000);
                    int re      = e;
                    if (rm >> 40) {
                        rm >>= 1;
                        re++;
                    }
                    bool over = re > 2047;
                    uint64_t exp = re < -2048 ? pat(neg, 0, 0) : pat(neg, rm, re);
                    // an exact tie may go either way
                    uint64_t alt = low == 0x800000 && e >= -2048 && e <= 2047 ? pat(neg, m, e) : exp;
                    checks++;
                    try {
                        uint64_t q = ieee_to_x1(u.d);
                        if (over && !(low == 0x800000 && e == 2047))
                            fail("ieee_to_x1 accepts overflow", u.p.man, q, e);
                        else if (!over && q != exp && q != alt && !(low == 0x800000 && e == -2049))
                            fail("ieee_to_x1 rounding", u.p.man, q, exp);
                    } catch (std::runtime_error &) {
                        if (!over)
                            fail("ieee_to_x1 refuses", u.p.man, e + 20000, exp);
                    }
                }
    if (part == 0) {
        for (long double d : { (long double)INFINITY, -(long double)INFINITY, (long double)NAN }) {
            states++;
            checks++;
            try {
                uint64_t q = ieee_to_x1(d);
                fail("ieee_to_x1 accepts a non-number", 0, q, 0);
            } catch (std::runtime_error &) {
            }
        }
    }
}

// real -> integer: nearest integer, error when out of range
static void toint(long lo, long hi)
{
    static const struct {
        long num;
        int up; // added to floor
    } fr[] = { { 0, 0 }, { 1, 0 }, { 7, 0 }, { 8, -1 }, { 9, 1 }, { 15, 1 } };
    for (long v = lo; v < hi; v++)
        for (auto &f : fr) {
            states++;
            checks++;
            long double d = v + f.num / 16.0L;
            long exp      = v + (f.up > 0);
            bool tie      = f.up < 0;
            try {
                Word w   = ieee_to_x1_integer(d);
                long got = x1_to_integer(w);
                if (got != exp && !(tie && (got == v + 1)))
                    fail("ieee_to_x1_integer", v * 16 + f.num, got, exp);
                if (labs(got) > (1 << 26) - 1)
                    fail("ieee_to_x1_integer range", v, got, exp);
            } catch (std::runtime_error &) {
                if (labs(exp) <= (1 << 26) - 1 && !(tie && labs(v + 1) > (1 << 26) - 1))
                    fail("ieee_to_x1_integer refuses", v * 16 + f.num, 0, exp);
            }
            if (labs(exp) > (1 << 26) - 1 && !tie) {
                // must have thrown: checked by the range test above
            }
        }
}

static void tointbig()
{
    for (int k = 26; k < 16000; k += k < 70 ? 1 : 97)
        for (int neg = 0; neg < 2; neg++)
            for (uint64_t low : { 0ull, 1ull, ~0ull >> 1 }) {
                states++;
                checks++;
                union {
                    long double d;
                    struct {
                        uint64_t man;
                        uint16_t se;
                    } p;
                } u;
                memset(&u, 0, sizeof u);
                u.p.man = 1ull << 63 | low;
                u.p.se  = (16383 + k) | (neg ? 0x8000 : 0);
                try {
                    Word w = ieee_to_x1_integer(u.d);
                    fail("ieee_to_x1_integer accepts overflow", k, w, 0);
                } catch (std::runtime_error &) {
                }
            }
}

int main(int argc, char **argv)
{
    std::string cmd = argv[1];
    long a          = argc > 2 ? atol(argv[2]) : 0;
    long b          = argc > 3 ? atol(argv[3]) : 0;
    long c          = argc > 4 ? atol(argv[4]) : 0;
    if (cmd == "ints")
        ints(a, b);
    else if (cmd == "intover")
        intover();
    else if (cmd == "reals")
        reals(c, a, b);
    else if (cmd == "unnorm")
        unnorm();
    else if (cmd == "rounding")
        rounding(c, a, b);
    else if (cmd == "toint")
        toint(a, b);
    else if (cmd == "tointbig")
        tointbig();
    printf("%s states=%llu checks=%llu\n", bad ? "BAD" : "OK", (unsigned long long)states, (unsigned long long)checks);
    return bad ? 1 : 0;
}
