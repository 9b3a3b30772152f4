// Dual-mode encryption, its homomorphic variant, oblivious transfer and distributed transfer.
#include <tuple>
#include "bulk.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
#include "ot.hpp"
#include "dot.hpp"
using namespace proto;
typedef dme::POINT POINT;

static dme::CURVE home; // curve that points built by the harness refer to; outlives every case
static Regs<dme::DMHE_DDH> insts;
static Regs<dme::DME_DDH> plain;
static Regs<dme::crs_ddh_t> crss;
static Regs<dme::pkey_t> pks;
static Regs<dme::skey_t> sks;
static Regs<dme::keypair_t> kps;
static Regs<dme::ctxt_t> cts;
static Regs<POINT> pts;
static Regs<dme::td_messy_ddh_t> tms;
static Regs<dme::td_dec_ddh_t> tds;
static Regs<ot::OTrecv> recv;
static Regs<ot::OTsndr> send_;
static Regs<ot::DOTrecv> drecv;
static Regs<ot::DOTsndr> dsend;
static Regs<ot::DOTprxy> prxy;
static Regs<ot::ctxt_v_t> replies;

static void show(std::ostream& out, const POINT& p)
{
    if (p.isInf()) out << "inf ";
    else out << hex(p.getX().getRawValue()) << " " << hex(p.getY().getRawValue()) << " ";
}
static void show(std::ostream& out, const dme::crs_ddh_t& c) { show(out, c.g0); show(out, c.g1); show(out, c.h0); show(out, c.h1); }
static POINT point(Args& a)
{
    std::string x = a.s();
    if (x == "inf") return POINT();
    return POINT(Z(x), a.z(), &home);
}
static dme::branch_t branch(Args& a) { return a.n() ? dme::b1 : dme::b0; }

CMD(burn) { long n = a.n(); while (n-- > 0) home.getRandomScalar(); srand(a.more() ? a.n() : 1); }

// --- dual-mode encryption
CMD(new) { std::string d = a.s(), m = a.s(); insts.emplace(d, m == "messy" ? dme::messy : dme::dec); }
CMD(newcrs) { std::string d = a.s(); insts.emplace(d, crss.get(a)); }
CMD(newplain) { std::string d = a.s(); plain.emplace(d); show(out, plain.at(d).crs); }
CMD(newplainmode) { std::string d = a.s(), m = a.s(); plain.emplace(d, m == "messy" ? dme::messy : dme::dec); show(out, plain.at(d).crs); }
CMD(crsrnd) { crss.emplace(a.s(), dme::DME_DDH().crs); }
CMD(crsmode) { std::string d = a.s(), m = a.s(); crss.emplace(d, dme::DME_DDH(m == "messy" ? dme::messy : dme::dec).crs); }
CMD(crsof) { std::string d = a.s(); crss.emplace(d, insts.get(a).crs); }
CMD(crsplain) { std::string d = a.s(); crss.emplace(d, plain.get(a).crs); }
CMD(crspts) { std::string d = a.s(); POINT g0 = point(a), g1 = point(a), h0 = point(a), h1 = point(a); crss.emplace(d, g0, g1, h0, h1); }
CMD(crscopy) { std::string d = a.s(); dme::crs_ddh_t c(crss.get(a)); crss.emplace(d, c); }
CMD(crsasg) { std::string d = a.s(); dme::crs_ddh_t c; c = crss.get(a); crss.emplace(d, c); }
CMD(crsset) { dme::crs_ddh_t& d = crss.get(a); dme::crs_ddh_t& s = crss.get(a); out << (&(d = s) == &d); }
CMD(crsupd) { crss.get(a).updateCurve(&home); }
CMD(crs) { show(out, crss.get(a)); }
CMD(crsvalid) { dme::crs_ddh_t& c = crss.get(a); out << c.g0.isValid() << c.g1.isValid() << c.h0.isValid() << c.h1.isValid(); }
CMD(crseq) { dme::crs_ddh_t& x = crss.get(a); dme::crs_ddh_t& y = crss.get(a); out << (x == y); }
CMD(instcrs) { show(out, insts.get(a).crs); }
CMD(drop) { insts.drop(a.s()); }
CMD(keygen)
{
    dme::DMHE_DDH& i = insts.get(a); std::string d = a.s(); dme::branch_t b = branch(a);
    dme::keypair_t k = i.KeyGen(b);
    kps.emplace(d, k); pks.emplace(d, k.pk); sks.emplace(d, k.sk);
    show(out, k.pk.g); show(out, k.pk.h); out << hex(k.sk.getRawValue());
}
CMD(trap)
{
    dme::DMHE_DDH& i = insts.get(a); std::string d = a.s();
    auto t = i.TrapKeyGen();
    pks.emplace(d, std::get<0>(t)); sks.emplace(d + "_0", std::get<1>(t)); sks.emplace(d + "_1", std::get<2>(t));
    show(out, std::get<0>(t).g); show(out, std::get<0>(t).h);
    out << hex(std::get<1>(t).getRawValue()) << " " << hex(std::get<2>(t).getRawValue());
}
CMD(messybranch) { dme::DMHE_DDH& i = insts.get(a); out << (int)i.FindMessy(pks.get(a)); }
CMD(pk) { std::string d = a.s(); POINT g = point(a), h = point(a); pks.emplace(d, g, h); }
CMD(sk) { std::string d = a.s(); sks.emplace(d, a.z()); }
CMD(encp)
{
    dme::DMHE_DDH& i = insts.get(a); std::string d = a.s(); dme::pkey_t& pk = pks.get(a); dme::branch_t b = branch(a);
    cts.emplace(d, i.Enc(pk, b, point(a))); show(out, cts.at(d).u); show(out, cts.at(d).mv);
}
CMD(encr) // encrypts the point register
{
    dme::DMHE_DDH& i = insts.get(a); std::string d = a.s(); dme::pkey_t& pk = pks.get(a); dme::branch_t b = branch(a);
    cts.emplace(d, i.Enc(pk, b, pts.get(a))); show(out, cts.at(d).u); show(out, cts.at(d).mv);
}
CMD(encz)
{
    dme::DMHE_DDH& i = insts.get(a); std::string d = a.s(); dme::pkey_t& pk = pks.get(a); dme::branch_t b = branch(a);
    mpz_class m = a.z(); cts.emplace(d, i.Enc(pk, b, m)); show(out, cts.at(d).u); show(out, cts.at(d).mv);
}
CMD(dec) { dme::DMHE_DDH& i = insts.get(a); dme::skey_t& k = sks.get(a); POINT p = i.Dec(k, cts.get(a)); show(out, p); out << p.isValid(); }
CMD(decz) { dme::DMHE_DDH& i = insts.get(a); dme::skey_t& k = sks.get(a); out << hex(i.DecDecode(k, cts.get(a))); }
CMD(eval)
{
    dme::DMHE_DDH& i = insts.get(a); std::string d = a.s(); dme::ctxt_t& x = cts.get(a); dme::ctxt_t& y = cts.get(a);
    dme::ctxt_t z = i.Eval(x, y); cts.emplace(d, z); show(out, z.u); show(out, z.mv);
}
CMD(encode) { dme::DMHE_DDH& i = insts.get(a); POINT p = i.encode(a.z()); show(out, p); out << p.isValid() << " " << hex(i.decode(p)); }
CMD(decode) { dme::DMHE_DDH& i = insts.get(a); out << hex(i.decode(point(a))); }
CMD(rndpt) { dme::DMHE_DDH& i = insts.get(a); std::string d = a.s(); pts.emplace(d, i.getCurve()->getRandomPoint()); show(out, pts.at(d)); }

// --- values
CMD(ct) { std::string d = a.s(); POINT u = point(a), v = point(a); cts.emplace(d, u, v); }
CMD(ctshow) { dme::ctxt_t& c = cts.get(a); show(out, c.u); show(out, c.mv); }
CMD(cteq) { dme::ctxt_t& x = cts.get(a); dme::ctxt_t& y = cts.get(a); out << (x == y); }
CMD(ctcopy) { std::string d = a.s(); dme::ctxt_t c(cts.get(a)); cts.emplace(d, c); }
CMD(ctasg) { std::string d = a.s(); dme::ctxt_t c; c = cts.get(a); cts.emplace(d, c); }
CMD(pkshow) { dme::pkey_t& c = pks.get(a); show(out, c.g); show(out, c.h); }
CMD(pkeq) { dme::pkey_t& x = pks.get(a); dme::pkey_t& y = pks.get(a); out << (x == y); }
CMD(pkcopy) { std::string d = a.s(); dme::pkey_t c(pks.get(a)); pks.emplace(d, c); }
CMD(pkasg) { std::string d = a.s(); dme::pkey_t c; c = pks.get(a); pks.emplace(d, c); }
CMD(kp) { std::string d = a.s(); POINT g = point(a), h = point(a); dme::skey_t s(a.z()); kps.emplace(d, dme::pkey_t(g, h), s); }
CMD(kpshow) { dme::keypair_t& c = kps.get(a); show(out, c.pk.g); show(out, c.pk.h); out << hex(c.sk.getRawValue()); }
CMD(kpeq) { dme::keypair_t& x = kps.get(a); dme::keypair_t& y = kps.get(a); out << (x == y); }
CMD(kpcopy) { std::string d = a.s(); dme::keypair_t c(kps.get(a)); kps.emplace(d, c); }
CMD(kpasg) { std::string d = a.s(); dme::keypair_t c; c = kps.get(a); kps.emplace(d, c); }
CMD(tm) { std::string d = a.s(); dme::FIELD_n e0(a.z()), e1(a.z()); tms.emplace(d, e0, e1); }
CMD(tmshow) { dme::td_messy_ddh_t& c = tms.get(a); out << hex(c.e0.getRawValue()) << " " << hex(c.e1.getRawValue()); }
CMD(tmeq) { dme::td_messy_ddh_t& x = tms.get(a); dme::td_messy_ddh_t& y = tms.get(a); out << (x == y); }
CMD(tmcopy) { std::string d = a.s(); dme::td_messy_ddh_t c(tms.get(a)); tms.emplace(d, c); }
CMD(tmasg) { std::string d = a.s(); dme::td_messy_ddh_t c; c = tms.get(a); tms.emplace(d, c); }
CMD(td) { std::string d = a.s(); dme::FIELD_n y(a.z()); tds.emplace(d, y); }
CMD(tdshow) { out << hex(tds.get(a).y.getRawValue()); }
CMD(tdeq) { dme::td_dec_ddh_t& x = tds.get(a); dme::td_dec_ddh_t& y = tds.get(a); out << (x == y); }
CMD(tdcopy) { std::string d = a.s(); dme::td_dec_ddh_t c(tds.get(a)); tds.emplace(d, c); }
CMD(tdasg) { std::string d = a.s(); dme::td_dec_ddh_t c; c = tds.get(a); tds.emplace(d, c); }

// --- oblivious transfer
CMD(recv) { std::string d = a.s(); recv.emplace(d, crss.get(a)); }
CMD(sender) { std::string d = a.s(); send_.emplace(d, crss.get(a)); }
CMD(select) { ot::OTrecv& r = recv.get(a); std::string d = a.s(); dme::branch_t b = branch(a); pks.emplace(d, r.selectMsg(b)); show(out, pks.at(d).g); show(out, pks.at(d).h); out << (int)r.getBranch(); }
static void showreply(std::ostream& out, const ot::ctxt_v_t& v) { out << v.size() << " "; for (auto& c : v) { show(out, c.u); show(out, c.mv); } }
CMD(offerp)
{
    ot::OTsndr& s = send_.get(a); std::string d = a.s(); dme::pkey_t pk = pks.get(a);
    POINT m0 = point(a), m1 = point(a);
    replies.emplace(d, s.encMsgs(pk, m0, m1)); showreply(out, replies.at(d));
}
CMD(offerz)
{
    ot::OTsndr& s = send_.get(a); std::string d = a.s(); dme::pkey_t pk = pks.get(a);
    mpz_class m0 = a.z(), m1 = a.z();
    replies.emplace(d, s.encMsgs(pk, m0, m1)); showreply(out, replies.at(d));
}
CMD(open) { ot::OTrecv& r = recv.get(a); POINT p = r.decryptMsg(replies.get(a)); show(out, p); out << p.isValid() << " " << (int)r.getBranch(); }
CMD(openz) { ot::OTrecv& r = recv.get(a); out << hex(r.decryptMsgDecode(replies.get(a))); }
CMD(swap) { std::string d = a.s(); ot::ctxt_v_t v = replies.get(a); std::swap(v.at(0), v.at(1)); replies.emplace(d, v); }
CMD(rndmsg) { show(out, send_.get(a).getRandomMsg()); }
CMD(reply) { showreply(out, replies.get(a)); }

// --- distributed oblivious transfer
CMD(drecv) { std::string d = a.s(); drecv.emplace(d, crss.get(a)); }
CMD(dsender) { std::string d = a.s(); dsend.emplace(d, crss.get(a)); }
CMD(proxy) { std::string d = a.s(); prxy.emplace(d, crss.get(a)); }
CMD(dselect) { ot::DOTrecv& r = drecv.get(a); std::string d = a.s(); dme::branch_t b = branch(a); pks.emplace(d, r.selectMsg(b)); show(out, pks.at(d).g); show(out, pks.at(d).h); }
CMD(dofferp)
{
    ot::DOTsndr& s = dsend.get(a); std::string d = a.s(); dme::pkey_t pk = pks.get(a);
    POINT m0 = point(a), m1 = point(a);
    replies.emplace(d, s.encMsgs(pk, m0, m1)); showreply(out, replies.at(d));
}
CMD(aggregate)
{
    ot::DOTprxy& p = prxy.get(a); std::string d = a.s();
    std::vector<ot::ctxt_v_t> v;
    while (a.more()) v.push_back(replies.get(a));
    replies.emplace(d, p.aggregate(v)); showreply(out, replies.at(d));
}
CMD(dopen) { ot::DOTrecv& r = drecv.get(a); POINT p = r.decryptMsg(replies.get(a)); show(out, p); out << p.isValid(); }

// bulk encode <curve> <seed> <count>
CMD(bulk)
{
    using bulk::h;
    a.s();
    bulk::RC rc = bulk::curve(a);
    mpz_class top = (rc.p >> 10) - 1;
    dme::DMHE_DDH i(dme::dec);
    bulk::run(a, out, [&](bulk::Rnd& r) {
        mpz_class m = r.one(2) ? r.bits(r.in(1, 245)) : bulk::md(r.about(top + 1), top + 1);
        POINT p = i.encode(m);
        bulk::yes(!p.isInf(), h(m) + " encodes to infinity");
        mpz_class x = p.getX().getRawValue(), y = p.getY().getRawValue();
        bulk::yes(sgn(x) >= 0 && x < rc.p && sgn(y) >= 0 && y < rc.p && rc.on(x, y) && p.isValid(), h(m) + " encodes to an invalid point (" + h(x) + ", " + h(y) + ")");
        bulk::same(i.decode(p), m, "decoding of the encoding of " + h(m));
    });
}
CMD(leak)
{
    long n = a.n(); std::string what = a.s(); mpz_class m = a.z();
    dme::DMHE_DDH base(dme::dec);
    dme::keypair_t k = base.KeyGen(dme::b1);
    auto once = [&] {
        if (what == "dme")
        {
            dme::ctxt_t c = base.Enc(k.pk, dme::b1, m);
            c = base.Eval(c, c); base.Dec(k.sk, c); base.DecDecode(k.sk, c); base.FindMessy(k.pk);
        }
        else if (what == "inst")
        {
            dme::DMHE_DDH x(dme::messy); dme::DMHE_DDH y(x.crs); dme::DME_DDH z; dme::DMHE_DDH w(dme::dec);
            w.TrapKeyGen(); y.KeyGen(dme::b0);
            w.crs = base.crs; w.KeyGen(dme::b1);
            z.crs = x.crs; z.KeyGen(dme::b0); z.crs = dme::crs_ddh_t();
        }
        else
        {
            ot::DOTrecv r(base.crs); ot::DOTsndr s(base.crs), s2(base.crs); ot::DOTprxy p(base.crs);
            dme::pkey_t pk = r.selectMsg(dme::b0);
            std::vector<ot::ctxt_v_t> v;
            v.push_back(s.encMsgs(pk, m, m + 1)); v.push_back(s2.encMsgs(pk, m, m));
            r.decryptMsg(p.aggregate(v)); r.decryptMsgDecode(v[0]);
        }
    };
    for (int i = 0; i < 2; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
int main() { return serve(); }
