// Long runs inside a driver: many small generated cases against references written with GMP integers only.
// A run is a pure function of its seed; it answers "ok" or the first case that fails.
#pragma once
#include "proto.hpp"
#include <random>
#include <set>
#include <stdexcept>

namespace bulk
{
using proto::hex;
typedef std::string S;

struct Bad : std::exception
{
    S m;
    explicit Bad(const S& s) : m(s) {}
    const char* what() const noexcept override { return m.c_str(); }
};

struct Rnd
{
    std::mt19937_64 g;
    explicit Rnd(uint64_t seed) : g(seed) {}
    uint64_t u() { return g(); }
    long in(long lo, long hi) { return lo + (long)(g() % (uint64_t)(hi - lo + 1)); }
    bool one(int n) { return g() % n == 0; }
    mpz_class bits(size_t n)
    {
        mpz_class r;
        for (size_t i = 0; i * 64 < n; i++) { r <<= 64; r += mpz_class((unsigned long)g()); }
        mpz_class t;
        mpz_fdiv_r_2exp(t.get_mpz_t(), r.get_mpz_t(), n);
        return t;
    }
    static mpz_class pow2(size_t n) { return mpz_class(1) << n; }
    mpz_class below(const mpz_class& m) { return bits(mpz_sizeinbase(m.get_mpz_t(), 2) + 64) % m; }
    mpz_class shaped(size_t max)
    {
        mpz_class r = 0;
        switch (in(0, 4))
        {
        case 0: for (int i = in(1, 4); i--;) r += (one(3) ? -1 : 1) * pow2(in(0, max - 1)); return abs(r);
        case 1: return ((pow2(in(1, max)) - 1) << in(0, max)) % pow2(max);
        case 2: { unsigned b = in(1, 255); for (int i = in(1, max / 8); i--;) r = (r << 8) + b; return r; }
        case 3:
            for (size_t i = 0; i < (max + 63) / 64; i++)
            {
                r <<= 64;
                switch (in(0, 4)) { case 0: break; case 1: r += pow2(64) - 1; break; case 2: r += pow2(63); break; case 3: r += in(0, 3); break; default: r += bits(64); }
            }
            return r;
        default: return bits(in(0, max));
        }
    }
    // an integer with regard to a modulus; anything from negative to twice its length
    mpz_class about(const mpz_class& m)
    {
        size_t b = mpz_sizeinbase(m.get_mpz_t(), 2);
        mpz_class r;
        switch (in(0, 9))
        {
        case 0: r = in(0, 20); break;
        case 1: r = m * (long)in(1, 3) + in(-20, 20); break;
        case 2: r = pow2(in(0, b + 8)) + in(-3, 3); break;
        case 3: r = shaped(b); break;
        case 4: r = m - shaped(b); break;
        case 5: r = bits(in(1, 2 * b)); break;
        case 6: r = (m + in(-1, 1)) / (long)in(2, 9) + in(-1, 1); break;
        default: r = below(m);
        }
        return one(8) ? mpz_class(-r) : r;
    }
    mpz_class nudge(const mpz_class& v, size_t b)
    {
        mpz_class r = v, t;
        switch (in(0, 7))
        {
        case 0: mpz_combit(r.get_mpz_t(), in(0, b - 1)); return r;
        case 1: return r + (one(2) ? 1 : -1) * (mpz_class(in(1, 40)) << in(0, b - 1));
        case 2: return r + in(-1000, 1000);
        case 3: t = pow2(in(1, b - 1)); return r % t + bits(b) / t * t;
        case 4: t = pow2(in(1, b - 1)); return r / t * t + bits(b) % t;
        case 5: t = bits(64) << (64 * in(0, (b - 1) / 64)); mpz_xor(r.get_mpz_t(), r.get_mpz_t(), t.get_mpz_t()); return r;
        case 6: mpz_combit(r.get_mpz_t(), in(0, b - 1)); mpz_combit(r.get_mpz_t(), in(0, b - 1)); return r;
        default: return one(2) ? mpz_class(r << in(1, 64)) : mpz_class(r >> in(1, 64));
        }
    }
    // the second of two related operands
    mpz_class beside(const mpz_class& x, const mpz_class& m)
    {
        mpz_class v;
        mpz_fdiv_r(v.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t());
        switch (in(0, 13))
        {
        case 0: return v;
        case 1: return m - v;
        case 2: return m - v + in(-2, 2);
        case 3: if (v == 0) return v; else { mpz_class i; mpz_invert(i.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); return i; }
        case 4: return nudge(v, mpz_sizeinbase(m.get_mpz_t(), 2));
        case 5: return pow2(in(1, 258)) - v + in(-1, 1); // carries all the way
        case 6: return v == 0 ? v : mpz_class((one(2) ? m : pow2(in(200, 520))) / v + in(-1, 1)); // products around a power of two or the modulus
        case 7: return v + in(-3, 3);
        default: return about(m);
        }
    }
    S bytes(size_t n) { S r(n, 0); for (auto& c : r) c = (char)g(); return r; }
};

static inline mpz_class md(const mpz_class& x, const mpz_class& m) { mpz_class r; mpz_fdiv_r(r.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); return r; }
static inline mpz_class inv(const mpz_class& x, const mpz_class& m) { mpz_class r, v = md(x, m); mpz_invert(r.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); return r; }
static inline S h(const mpz_class& z) { return (sgn(z) < 0 ? "-0x" + hex(abs(z)) : "0x" + hex(z)); }

static inline void same(const mpz_class& got, const mpz_class& want, const S& what)
{
    if (got != want) throw Bad(what + ": got " + h(got) + ", expected " + h(want));
}
static inline void yes(bool b, const S& what) { if (!b) throw Bad(what); }

// the reference's curves
struct RP { bool inf = true; mpz_class x, y; bool operator==(const RP& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
static inline S h(const RP& p) { return p.inf ? "infinity" : "(" + h(p.x) + ", " + h(p.y) + ")"; }
struct RC
{
    mpz_class p, a, b, n, gx, gy;
    mpz_class rhs(const mpz_class& x) const { return md((x * x + a) * x + b, p); }
    bool on(const mpz_class& x, const mpz_class& y) const { return md(y * y, p) == rhs(x); }
    RP neg(const RP& q) const { RP r = q; if (!q.inf) r.y = md(-q.y, p); return r; }
    RP add(const RP& q, const RP& s) const
    {
        if (q.inf) return s;
        if (s.inf) return q;
        mpz_class l;
        if (q.x == s.x)
        {
            if (q.y != s.y || q.y == 0) return RP();
            l = (3 * q.x * q.x + a) * inv(2 * q.y, p);
        }
        else l = (s.y - q.y) * inv(s.x - q.x, p);
        l = md(l, p);
        RP r;
        r.inf = false;
        r.x = md(l * l - q.x - s.x, p);
        r.y = md(l * (q.x - r.x) - q.y, p);
        return r;
    }
    RP mul(const RP& q, const mpz_class& k) const
    {
        if (sgn(k) < 0) return mul(neg(q), -k);
        RP r;
        for (long i = (long)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--)
        {
            r = add(r, r);
            if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, q);
        }
        return r;
    }
    // a root of the right-hand side; both primes are 3 modulo 4
    bool lift(const mpz_class& x, mpz_class& y) const
    {
        mpz_class v = rhs(x), e = (p + 1) / 4;
        mpz_powm(y.get_mpz_t(), v.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
        return md(y * y, p) == v;
    }
    RP G() const { RP r; r.inf = false; r.x = gx; r.y = gy; return r; }
};
static inline RC curve(proto::Args& a) { RC c; c.p = a.z(); c.a = a.z(); c.b = a.z(); c.n = a.z(); c.gx = a.z(); c.gy = a.z(); return c; }

// "bulk <what> ... <seed> <count>": f(rnd) makes and decides one case
template <typename F> static void run(proto::Args& a, std::ostream& out, F f)
{
    unsigned long seed = a.z().get_ui();
    long n = a.n();
    for (long i = 0; i < n; i++)
    {
        Rnd r(seed + 0x9e3779b97f4a7c15ul * (unsigned long)i);
        try { f(r); }
        catch (const Bad& e) { out << "bad " << i << " " << proto::hexs(e.m); return; }
    }
    out << "ok " << n;
}

// a long run of draws below m: "ok", how often every bit is set, how often the bits of the value scaled to 16 bits are; or "bad", which draw, why
template <typename F> static void many(std::ostream& out, long n, const mpz_class& m, F draw)
{
    typedef std::pair<unsigned long, unsigned long> K;
    auto key = [](const mpz_class& v) { return K(mpz_getlimbn(v.get_mpz_t(), 0), mpz_size(v.get_mpz_t()) > 1 ? mpz_getlimbn(v.get_mpz_t(), 1) : 0); };
    std::set<K> seen, steps;
    mpz_class top = m - 1, last;
    size_t b = mpz_sizeinbase(top.get_mpz_t(), 2);
    std::vector<long> plain(b), scaled(16);
    for (long i = 0; i < n; i++)
    {
        mpz_class v = draw();
        S why;
        if (v < 0 || v >= m) why = "is out of range";
        else if (!seen.insert(key(v)).second) why = "repeats an earlier one";
        else if (i && !steps.insert(key(md(v - last, m))).second) why = "differs from the one before it as much as some earlier draws do";
        if (!why.empty()) { out << "bad " << i << " " << proto::hexs(why); return; }
        last = v;
        for (size_t k = 0; k < b; k++) plain[k] += mpz_tstbit(v.get_mpz_t(), k);
        unsigned long s = mpz_class((v << 16) / m).get_ui();
        for (int k = 0; k < 16; k++) scaled[k] += s >> k & 1;
    }
    out << "ok ";
    for (long c : plain) out << c << " ";
    for (long c : scaled) out << c << " ";
}

// --- the reference's checksum and conversions
typedef std::vector<uint8_t> Bytes;
static inline uint32_t crc32c(const uint8_t* d, size_t n, uint32_t c = 0)
{
    static uint32_t t[256];
    if (!t[1])
        for (uint32_t i = 0; i < 256; i++)
        {
            uint32_t v = i;
            for (int k = 0; k < 8; k++) v = v >> 1 ^ (v & 1 ? 0x82F63B78u : 0);
            t[i] = v;
        }
    for (size_t i = 0; i < n; i++) c = c >> 8 ^ t[(c ^ d[i]) & 255];
    return c;
}
static inline Bytes raw(const mpz_class& z)
{
    Bytes r;
    S s = hex(z);
    if (z == 0) return r;
    if (s.size() % 2) s = "0" + s;
    for (char c : proto::unhexs(s)) r.push_back((uint8_t)c);
    return r;
}
static inline mpz_class number(const Bytes& b)
{
    static const char* d = "0123456789abcdef";
    S s = "0";
    for (uint8_t c : b) { s += d[c >> 4]; s += d[c & 15]; }
    return mpz_class(s, 16);
}
static inline mpz_class with_crc(const mpz_class& z)
{
    Bytes b = raw(z);
    uint32_t c = crc32c(b.data(), b.size());
    for (int i = 0; i < 4; i++) b.push_back(c >> 8 * i);
    return number(b);
}
static inline bool crc_ok(const mpz_class& z)
{
    Bytes b = raw(z);
    if (b.size() < 4) return z == 0;
    uint32_t c = 0;
    for (int i = 0; i < 4; i++) c |= (uint32_t)b[b.size() - 4 + i] << 8 * i;
    return crc32c(b.data(), b.size() - 4) == c;
}
// lengths around those of machine words and cipher blocks, patterned contents
static inline mpz_class text(Rnd& r)
{
    mpz_class z;
    if (r.one(250)) // around the borders of lengths
    {
        size_t n = 8 * ((1ul << r.in(7, r.one(3) ? 17 : 13)) + r.in(-6, 6));
        z = r.bits(n) | Rnd::pow2(n - r.in(1, 8));
        return r.one(3) ? mpz_class(z >> 40 << 40) : z;
    }
    switch (r.in(0, 6))
    {
    case 0: return r.bits(r.in(0, 64));
    case 1: { size_t n = 128 * r.in(1, 5) + 8 * r.in(-2, 2); return r.bits(n) | Rnd::pow2(n - 1); }
    case 2: return r.shaped(8 * r.in(1, 60));
    case 3: return r.bits(r.in(0, 40)) << r.in(0, 300);
    case 4: { size_t n = 8 * r.in(1, 40); return r.bits(n) | Rnd::pow2(n - r.in(1, 8)); }
    default: return r.bits(r.in(0, 800));
    }
}
} // namespace bulk
