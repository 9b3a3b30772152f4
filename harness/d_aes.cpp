// Symmetric encryption.
#define OPENSSL_SUPPRESS_DEPRECATED
#include "bulk.hpp"
#include <openssl/aes.h>
#include "aes.hpp"
using namespace proto;
CMD(init) { if (a.more()) aes::AES::init(unhexs(a.s())); else aes::AES::init(); }
CMD(enc) { aes::AES x; mpz_class k = a.z(), m = a.z(); out << hex(x.encrypt(k, m)); }
CMD(dec) { aes::AES x; mpz_class k = a.z(), m = a.z(); out << hex(x.decrypt(k, m)); }
CMD(encc) { aes::AES x; mpz_class k = a.z(), m = a.z(); out << hex(x.encryptCRC(k, m)); }
CMD(decc) { aes::AES x; mpz_class k = a.z(), m = a.z(); out << hex(x.decryptCRC(k, m)); }
CMD(leak)
{
    long n = a.n(); mpz_class k = a.z(), m = a.z(), bad = a.z();
    auto once = [&] {
        aes::AES x; aes::AES::init();
        x.decrypt(k, x.encrypt(k, m)); x.decryptCRC(k, x.encryptCRC(k, m)); x.decryptCRC(k, bad); x.decrypt(k, bad);
        x.decryptCRC(k + 1, x.encryptCRC(k, m));
    };
    for (int i = 0; i < 20; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
// counter mode over single blocks
static bulk::Bytes ctr(const bulk::Bytes& key, const bulk::Bytes& iv, bulk::Bytes d, size_t from = 0)
{
    AES_KEY k;
    AES_set_encrypt_key(key.data(), 128, &k);
    bulk::Bytes c = iv;
    uint8_t ks[16];
    d.erase(d.begin(), d.begin() + from);
    for (size_t i = 0; i < d.size(); i++)
    {
        if (i % 16 == 0)
        {
            AES_encrypt(c.data(), ks, &k);
            for (int j = 15; j >= 0 && ++c[j] == 0; j--) {}
        }
        d[i] ^= ks[i % 16];
    }
    return d;
}
static mpz_class anyKey(bulk::Rnd& r)
{
    switch (r.in(0, 4)) { case 0: return r.bits(r.in(0, 128)); case 1: return r.shaped(128) % bulk::Rnd::pow2(128); case 2: return r.bits(120); default: return r.bits(128); }
}
static bulk::Bytes anyVector(bulk::Rnd& r)
{
    bulk::Bytes v(16);
    for (auto& c : v) c = r.one(3) ? 255 : (uint8_t)r.u();
    if (r.one(3)) { for (auto& c : v) c = 255; v[15] -= r.in(0, 20); }
    if (r.one(3)) std::fill(v.begin(), v.end(), 0);
    return v;
}
static bulk::Bytes wide(const mpz_class& k) { bulk::Bytes b = bulk::raw(k); b.insert(b.begin(), 16 - b.size(), 0); return b; }
// bulk trip|reject <seed> <count>
CMD(bulk)
{
    using bulk::h;
    if (a.s() == "trip")
        bulk::run(a, out, [](bulk::Rnd& r) {
            aes::AES x;
            bulk::Bytes iv = anyVector(r);
            aes::AES::init(std::string(iv.begin(), iv.end()));
            for (int i = r.in(1, 3); i--;)
            {
                mpz_class k = anyKey(r), m = bulk::text(r), c = x.encrypt(k, m), d = x.encryptCRC(k, m);
                std::string at = h(m) + " under key " + h(k) + " and vector " + hexs(std::string(iv.begin(), iv.end()));
                bulk::Bytes p = bulk::raw(m), q = bulk::raw(bulk::with_crc(m)), want = ctr(wide(k), iv, p), wantc = ctr(wide(k), iv, q);
                bulk::same(c % bulk::Rnd::pow2(8 * p.size()), bulk::number(want), "encryption of " + at);
                bulk::same(x.decrypt(k, c), m, "decryption of " + at);
                bulk::same(d % bulk::Rnd::pow2(8 * q.size()), bulk::number(wantc), "checked encryption of " + at);
                bulk::same(x.decryptCRC(k, d), m, "checked decryption of " + at);
            }
        });
    else
        bulk::run(a, out, [](bulk::Rnd& r) {
            aes::AES x;
            bulk::Bytes iv = anyVector(r);
            aes::AES::init(std::string(iv.begin(), iv.end()));
            mpz_class k = anyKey(r), k2 = k, m = bulk::text(r), c = x.encryptCRC(k, m), bad = c;
            size_t size = bulk::raw(c).size(), w = std::min<size_t>(size, r.in(1, 4));
            switch (r.in(0, 4))
            {
            case 0: k2 = r.one(2) ? anyKey(r) : bulk::md(r.nudge(k, 128), bulk::Rnd::pow2(128)); break;
            case 1: bad = r.one(2) ? bulk::text(r) : mpz_class(c >> 8 * r.in(1, 6)); break;
            default: { mpz_class f = (r.one(2) ? bulk::Rnd::pow2(r.in(0, 8 * w - 1)) : r.bits(8 * w)) << 8 * r.in(0, size - w); mpz_xor(bad.get_mpz_t(), bad.get_mpz_t(), f.get_mpz_t()); }
            }
            if (bad == c && k2 == k) return;
            bulk::Bytes b = bulk::raw(bad);
            for (size_t skip = 0; skip < 2 && skip <= b.size(); skip++)
                if (bulk::crc_ok(bulk::number(ctr(wide(k2), iv, b, skip)))) return; // by chance, or no content
            bulk::same(x.decryptCRC(k2, bad), 0, "checked decryption of " + h(bad) + " under key " + h(k2) + " (vector " + hexs(std::string(iv.begin(), iv.end())) + ", made from " + h(m) + " under key " + h(k) + " as " + h(c) + ")");
        });
}
int main() { return serve(); }
