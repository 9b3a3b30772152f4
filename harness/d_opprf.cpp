// OPPRF protocol runs.
#include "proto.hpp"
#include "opprf.hpp"
#include "utilities.hpp"
using namespace proto;
typedef dme::POINT POINT;
static dme::CURVE home;
static Regs<opprf::OPPRFserver> servers;
static Regs<opprf::OPPRFclient> clients;
static Regs<dme::crs_ddh_t> crss;
static Regs<opprf::symctxt_t> masks;
static void show(std::ostream& out, const POINT& p)
{
    if (p.isInf()) out << "inf ";
    else out << hex(p.getX().getRawValue()) << " " << hex(p.getY().getRawValue()) << " ";
}
static POINT point(Args& a) { std::string x = a.s(); if (x == "inf") return POINT(); return POINT(Z(x), a.z(), &home); }
// burn <scalars> <utils draws> <srand seed>
CMD(burn) { long n = a.n(); while (n-- > 0) home.getRandomScalar(); n = a.n(); while (n-- > 0) utils::getRandom(128); srand(a.n()); }
CMD(crs) { std::string d = a.s(), m = a.s(); if (m == "rnd") crss.emplace(d, dme::DME_DDH().crs); else crss.emplace(d, dme::DME_DDH(m == "messy" ? dme::messy : dme::dec).crs); }
CMD(crspts) { std::string d = a.s(); dme::crs_ddh_t c; c.g0 = point(a); c.g1 = point(a); c.h0 = point(a); c.h1 = point(a); crss.emplace(d, c); }
CMD(server) { std::string d = a.s(); long theta = a.n(); servers.emplace(d, theta, crss.get(a)); }
CMD(client) { std::string d = a.s(); clients.emplace(d, crss.get(a)); }
CMD(secret) { opprf::OPPRFserver& s = servers.get(a); POINT g = point(a); s.setSecret(g); show(out, g); out << g.isValid(); }
CMD(message) { opprf::OPPRFclient& c = clients.get(a); c.setMessage(a.n()); }
CMD(prepare) { servers.get(a).prepareKeysAndInputs(); }
CMD(round)
{
    opprf::OPPRFserver& s = servers.get(a); opprf::OPPRFclient& c = clients.get(a); long r = a.n();
    dme::pkey_t pk = c.runOTRound_start(r);
    opprf::ot_ctxts_t x = s.runOTRound(r, pk);
    c.runOTRound_end(r, x);
}
CMD(rounds)
{
    opprf::OPPRFserver& s = servers.get(a); opprf::OPPRFclient& c = clients.get(a); long from = a.n(), to = a.n();
    for (long r = from; r >= to; r--)
    {
        dme::pkey_t pk = c.runOTRound_start(r);
        opprf::ot_ctxts_t x = s.runOTRound(r, pk);
        c.runOTRound_end(r, x);
    }
}
CMD(roundsv) // the same, with the client's result after every round
{
    opprf::OPPRFserver& s = servers.get(a); opprf::OPPRFclient& c = clients.get(a); long from = a.n(), to = a.n();
    for (long r = from; r >= to; r--)
    {
        dme::pkey_t pk = c.runOTRound_start(r);
        opprf::ot_ctxts_t x = s.runOTRound(r, pk);
        c.runOTRound_end(r, x);
        show(out, c.getResult());
    }
}
CMD(masks) { std::string d = a.s(); masks.emplace(d, servers.get(a).sendEncryptedMasks()); }
CMD(unmask) { opprf::OPPRFclient& c = clients.get(a); c.unmaskResult(masks.get(a)); }
CMD(result) { POINT p = clients.get(a).getResult(); show(out, p); out << p.isValid(); }
CMD(kopprf) { POINT p = servers.get(a).getKOPPRF(); show(out, p); out << p.isValid(); }
CMD(cleans) { servers.get(a).clean(); }
CMD(cleanc) { clients.get(a).clean(); }
CMD(leak)
{
    // sessions with clean-up on long-lived parties; rounds limited to the first k to keep it affordable
    long n = a.n(), theta = a.n(), x = a.n();
    dme::crs_ddh_t crs = dme::DME_DDH().crs;
    opprf::OPPRFserver s(theta, crs); opprf::OPPRFclient c(crs);
    POINT g = home.getRandomPoint();
    auto once = [&] {
        s.setSecret(g); c.setMessage(x); s.prepareKeysAndInputs();
        for (int r = MSG_BITS; r > 0; r--) { dme::pkey_t pk = c.runOTRound_start(r); c.runOTRound_end(r, s.runOTRound(r, pk)); }
        c.unmaskResult(s.sendEncryptedMasks()); s.clean(); c.clean();
    };
    once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
// parties made and destroyed, sessions prepared, begun and abandoned
CMD(leakparties)
{
    long n = a.n(), theta = a.n(), x = a.n();
    dme::crs_ddh_t crs = dme::DME_DDH().crs;
    POINT g = home.getRandomPoint();
    auto once = [&] {
        opprf::OPPRFserver s(theta, crs); opprf::OPPRFclient c(crs);
        s.setSecret(g); c.setMessage(x); s.prepareKeysAndInputs();
        dme::pkey_t pk = c.runOTRound_start(16); c.runOTRound_end(16, s.runOTRound(16, pk));
        s.clean(); c.clean(); s.prepareKeysAndInputs(); s.sendEncryptedMasks(); s.clean();
        try { s.prepareKeysAndInputs(); c.unmaskResult(s.sendEncryptedMasks()); } catch (const std::exception&) {}
    };
    for (int i = 0; i < 2; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
// positions <server> <client's crs> <x> <sessions>: for every session, the positions at which the key of an observing client opens, in each round and among the masks
static char opened(aes::AES& aes, const mpz_class& key, const std::vector<mpz_class>& c, mpz_class* to)
{
    int at = -1, n = 0;
    for (size_t i = 0; i < c.size(); i++)
    {
        mpz_class m = aes.decryptCRC(key, c[i]);
        if (m != 0) { n++; at = i; *to = m; }
    }
    return n == 1 ? '0' + at : n ? 'm' : 'n';
}
CMD(positions)
{
    opprf::OPPRFserver& s = servers.get(a); dme::crs_ddh_t& crs = crss.get(a); long x = a.n(), n = a.n();
    aes::AES aes;
    while (n-- > 0)
    {
        s.prepareKeysAndInputs();
        ot::OTrecv r(crs);
        mpz_class key;
        std::string line;
        for (int i = MSG_BITS; i > 0; i--)
        {
            dme::pkey_t pk = r.selectMsg(dme::branch_t(x >> (i - 1) & 1));
            opprf::ot_ctxts_t c = s.runOTRound(i, pk);
            if (i == MSG_BITS) { key = r.decryptMsgDecode(c.ctxt[0]); continue; }
            std::vector<mpz_class> v;
            for (int j = 0; j < 3; j++) v.push_back(r.decryptMsgDecode(c.ctxt[j]));
            line += opened(aes, key, v, &key);
        }
        opprf::symctxt_t m = s.sendEncryptedMasks();
        line += opened(aes, key, std::vector<mpz_class>(m.begin(), m.end()), &key);
        s.clean();
        out << line << " ";
    }
}
int main() { return serve(); }
