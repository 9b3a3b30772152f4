// PUDA aggregation.
#include "proto.hpp"
#include "puda.hpp"
using namespace proto;
typedef ecc::Point_secp256r1 POINT;
static ecc::Curve_secp256r1 home;
struct Setup { puda::ek_v_t ek; puda::sk_v_t sk; puda::ak_t ak; puda::vk_t vk; };
static Regs<puda::Puda> objs;
static Regs<Setup> setups;
static Regs<POINT> pts;
static void show(std::ostream& out, const POINT& p)
{
    if (p.isInf()) out << "inf ";
    else out << hex(p.getX().getRawValue()) << " " << hex(p.getY().getRawValue()) << " ";
}
static POINT point(Args& a) { std::string x = a.s(); if (x == "inf") return POINT(); return POINT(Z(x), a.z(), &home); }
CMD(burn) { long n = a.n(); while (n-- > 0) home.getRandomScalar(); }
CMD(new) { objs.emplace(a.s()); }
CMD(setup)
{
    puda::Puda& o = objs.get(a); std::string d = a.s(); size_t n = a.n();
    auto t = o.Setup(n);
    Setup& s = setups.emplace(d);
    s.ek = std::get<0>(t); s.sk = std::get<1>(t); s.ak = std::get<2>(t); s.vk = std::get<3>(t);
    out << s.ek.size() << " " << s.sk.size() << " ";
    for (auto& e : s.ek) out << hex(e.getRawValue()) << " ";
    for (auto& e : s.sk) out << hex(e.a) << " " << hex(e.tk.getRawValue()) << " ";
    out << hex(s.ak.getRawValue()) << " ";
    show(out, s.vk.vk_1); show(out, s.vk.vk_2);
}
CMD(enc) { puda::Puda& o = objs.get(a); std::string d = a.s(); Setup& s = setups.get(a); long i = a.n(), m = a.n(), t = a.n(); pts.emplace(d, o.Enc(s.ek.at(i), m, t)); show(out, pts.at(d)); out << pts.at(d).isValid(); }
CMD(enck) { puda::Puda& o = objs.get(a); std::string d = a.s(); puda::ek_t k(a.z()); long m = a.n(), t = a.n(); pts.emplace(d, o.Enc(k, m, t)); show(out, pts.at(d)); out << pts.at(d).isValid(); }
CMD(tag) { puda::Puda& o = objs.get(a); std::string d = a.s(); Setup& s = setups.get(a); long i = a.n(), m = a.n(), t = a.n(); pts.emplace(d, o.Tag(s.sk.at(i), m, t)); show(out, pts.at(d)); out << pts.at(d).isValid(); }
// agg <obj> <setup> <t> <regs of tag result> c1 c2 ... / t1 t2 ...
CMD(agg)
{
    puda::Puda& o = objs.get(a); Setup& s = setups.get(a); long t = a.n(); std::string d = a.s();
    puda::ctxt_v_t c; puda::tag_v_t g; bool tags = false;
    while (a.more()) { std::string w = a.s(); if (w == "/") { tags = true; continue; } if (tags) g.push_back(pts.at(w)); else c.push_back(pts.at(w)); }
    auto r = o.Agg(s.ak, c, g, t);
    pts.emplace(d, r.second);
    out << r.first << " "; show(out, r.second);
}
CMD(verify) { puda::Puda& o = objs.get(a); Setup& s = setups.get(a); long sum = a.n(); POINT tag = point(a); long t = a.n(); out << o.Verify(s.vk, sum, tag, t); }
CMD(verifyr) { puda::Puda& o = objs.get(a); Setup& s = setups.get(a); long sum = a.n(); POINT& tag = pts.get(a); long t = a.n(); out << o.Verify(s.vk, sum, tag, t); }
CMD(leak)
{
    long n = a.n(), t = a.n(), m = a.n();
    puda::Puda keep; 
    auto once = [&] {
        puda::Puda o; auto s = o.Setup(2); keep.Setup(1);
        puda::ctxt_v_t c; puda::tag_v_t g;
        for (int i = 0; i < 2; i++) { c.push_back(o.Enc(std::get<0>(s)[i], m, t)); g.push_back(o.Tag(std::get<1>(s)[i], m, t)); }
        auto r = o.Agg(std::get<2>(s), c, g, t); o.Verify(std::get<3>(s), r.first, r.second, t);
    };
    for (int i = 0; i < 2; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
int main() { return serve(); }
