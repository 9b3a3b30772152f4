// Checksums and raw integer conversions.
#include "utilities.hpp"
#include "crc.hpp"
#include "bulk.hpp"
using namespace proto;
static std::vector<uint8_t> bytes(Args& a) { std::string s = unhexs(a.s()); return std::vector<uint8_t>(s.begin(), s.end()); }
// crc <start> <alignment> <hex>: the buffer ends exactly at the end of its allocation
CMD(crc)
{
    uint32_t start = (uint32_t)a.z().get_ui(); long al = a.n(); std::string s = unhexs(a.s());
    unsigned char* raw = (unsigned char*)malloc(al + s.size() ? al + s.size() : 1);
    memset(raw, 0xa5, al);
    memcpy(raw + al, s.data(), s.size());
    uint32_t c = calculate_crc32c(start, raw + al, s.size());
    bool same = memcmp(raw + al, s.data(), s.size()) == 0;
    free(raw);
    out << hex(mpz_class((unsigned long)c)) << " " << same;
}
CMD(append) { out << hex(appendCRC(a.z())); }
CMD(validate) { out << validateCRC(a.z()); }
CMD(remove) { out << hex(removeCRC(a.z())); }
CMD(toraw) { uint8_t* p = nullptr; size_t n = utils::getRawMpz(&p, a.z()); out << n << " " << hexs(std::string((char*)p, n)); free(p); }
CMD(fromraw)
{
    std::string s = unhexs(a.s());
    uint8_t* p = (uint8_t*)malloc(s.size() ? s.size() : 1);
    memcpy(p, s.data(), s.size());
    mpz_class r = utils::setRawMpz(p, s.size());
    out << hex(r) << " " << (memcmp(p, s.data(), s.size()) == 0);
    free(p);
}
CMD(rawtrip) { uint8_t* p = nullptr; size_t n = utils::getRawMpz(&p, a.z()); out << hex(utils::setRawMpz(p, n)); free(p); }
CMD(burn) { long n = a.n(); while (n-- > 0) utils::getRandom(64); }
CMD(getrandom) { long bits = a.n(), n = a.n(); while (n--) out << hex(utils::getRandom(bits)) << " "; }
CMD(leak)
{
    long n = a.n(); mpz_class m = a.z();
    auto once = [&] { mpz_class x = appendCRC(m); validateCRC(x); validateCRC(m); removeCRC(x); removeCRC(m); utils::getRandom(128); };
    for (int i = 0; i < 20; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
// bulk crc|append|raw <seed> <count>
CMD(bulk)
{
    using bulk::h;
    std::string what = a.s();
    if (what == "crc")
        bulk::run(a, out, [](bulk::Rnd& r) {
            size_t al = r.in(0, 16), n = r.one(3) ? r.in(0, 16) : r.one(8) ? r.in(0, 3000) : r.one(500) ? (1l << r.in(12, 18)) + r.in(-9, 9) : r.in(0, 130), cut = r.in(0, n);
            uint32_t s = r.one(2) ? 0 : (uint32_t)r.u();
            std::vector<unsigned char> buf(al + n + 1);
            for (auto& c : buf) c = (uint8_t)r.u();
            if (r.one(4)) for (auto& c : buf) c = r.one(9);
            unsigned char* p = buf.data() + al;
            uint32_t want = bulk::crc32c(p, n, s), got = calculate_crc32c(s, p, n);
            bulk::yes(got == want, "checksum of " + hexs(std::string(p, p + n)) + " at alignment " + std::to_string(al) + " from " + std::to_string(s) + ": got " + std::to_string(got) + ", expected " + std::to_string(want));
            got = calculate_crc32c(calculate_crc32c(s, p, cut), p + cut, n - cut);
            bulk::yes(got == want, "checksum of " + hexs(std::string(p, p + n)) + " cut at " + std::to_string(cut));
        });
    else if (what == "append")
        bulk::run(a, out, [](bulk::Rnd& r) {
            mpz_class m = bulk::text(r), c = appendCRC(m), bad = c;
            bulk::same(c, bulk::with_crc(m), "append(" + h(m) + ")");
            bulk::yes(validateCRC(c), "validation of append(" + h(m) + ")");
            bulk::same(removeCRC(c), m, "stripping append(" + h(m) + ")");
            size_t size = bulk::raw(c).size(), w = std::min<size_t>(size, r.in(1, 4));
            mpz_class bits = r.one(2) ? bulk::Rnd::pow2(r.in(0, 31)) : r.bits(8 * w);
            bits <<= 8 * r.in(0, size - w);
            if (r.one(3)) bad = r.one(2) ? bulk::text(r) : mpz_class(c >> 8 * r.in(1, 5)); else mpz_xor(bad.get_mpz_t(), bad.get_mpz_t(), bits.get_mpz_t());
            bulk::yes(validateCRC(bad) == bulk::crc_ok(bad), "validation of " + h(bad));
            bulk::same(removeCRC(bad), bad >> 32, "stripping " + h(bad));
            bulk::same(appendCRC(bad), bulk::with_crc(bad), "append(" + h(bad) + ")");
        });
    else
        bulk::run(a, out, [](bulk::Rnd& r) {
            mpz_class m = bulk::text(r);
            bulk::Bytes b = bulk::raw(m);
            uint8_t* p = nullptr;
            size_t n = utils::getRawMpz(&p, m);
            bulk::yes(n == b.size() && (n == 0 || memcmp(p, b.data(), n) == 0), "bytes of " + h(m));
            bulk::same(utils::setRawMpz(p, n), m, "export and import of " + h(m));
            free(p);
            size_t zeros = r.one(3) ? r.in(1, 20) : 0;
            b.insert(b.begin(), zeros, 0);
            bulk::Bytes before = b;
            bulk::same(utils::setRawMpz(b.data(), b.size()), m, "import of " + std::to_string(zeros) + " zero bytes and " + h(m));
            bulk::yes(b == before, "bytes after the import of " + h(m));
        });
}
int main() { return serve(); }
