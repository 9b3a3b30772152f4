// ElGamal encryption.
#include "proto.hpp"
#include "elgamal.hpp"
using namespace proto;
typedef elgamal::POINT POINT;
static elgamal::CURVE home;
static Regs<elgamal::ElGamal> objs;
static Regs<elgamal::keypair_t> kps;
static Regs<elgamal::ctxt_t> cts;
static void show(std::ostream& out, const POINT& p)
{
    if (p.isInf()) out << "inf ";
    else out << hex(p.getX().getRawValue()) << " " << hex(p.getY().getRawValue()) << " ";
}
static POINT point(Args& a) { std::string x = a.s(); if (x == "inf") return POINT(); return POINT(Z(x), a.z(), &home); }
CMD(burn) { long n = a.n(); while (n-- > 0) home.getRandomScalar(); }
CMD(new) { objs.emplace(a.s()); }
CMD(keygen) { elgamal::ElGamal& o = objs.get(a); std::string d = a.s(); kps.emplace(d, o.keyGen()); out << hex(kps.at(d).sk.getRawValue()) << " "; show(out, kps.at(d).pk); out << kps.at(d).pk.isValid(); }
CMD(encz) { elgamal::ElGamal& o = objs.get(a); std::string d = a.s(); elgamal::keypair_t& k = kps.get(a); mpz_class m = a.z(); cts.emplace(d, o.encrypt(k.pk, m)); show(out, cts.at(d).u); show(out, cts.at(d).mv); }
CMD(encp) { elgamal::ElGamal& o = objs.get(a); std::string d = a.s(); elgamal::keypair_t& k = kps.get(a); POINT m = point(a); cts.emplace(d, o.encrypt(k.pk, m)); show(out, cts.at(d).u); show(out, cts.at(d).mv); }
CMD(dec) { elgamal::ElGamal& o = objs.get(a); elgamal::keypair_t& k = kps.get(a); out << hex(o.decrypt(k.sk, cts.get(a))); }
CMD(deck) { elgamal::ElGamal& o = objs.get(a); elgamal::skey_t k(a.z()); out << hex(o.decrypt(k, cts.get(a))); }
CMD(leak)
{
    long n = a.n(); mpz_class m = a.z();
    auto once = [&] { elgamal::ElGamal o; elgamal::keypair_t k = o.keyGen(); o.decrypt(k.sk, o.encrypt(k.pk, m)); };
    for (int i = 0; i < 2; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
int main() { return serve(); }
