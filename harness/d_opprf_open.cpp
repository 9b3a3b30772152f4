// The protocol of d_opprf.cpp with transfers in the clear in place of src/ot/ot.cpp, to search many more sessions than
// real transfers allow. Failures found with it only count when the real ones show them too (see Facet.confirm).
// The same random scalars are drawn as in real transfers, so that a session meets the same random state in both.
#include "d_opprf.cpp"
#include <map>
namespace ot
{
static std::map<const OTrecv*, int>& choices() { static std::map<const OTrecv*, int> m; return m; }
static dme::DME_DDH& coder() { static dme::DME_DDH d{dme::crs_ddh_t()}; return d; }
static void draw(int n) { while (n-- > 0) home.getRandomScalar(); }
static ctxt_v_t pair(const dme::msg_t& a, const dme::msg_t& b) { draw(4); return {dme::ctxt_t(dme::POINT(), a), dme::ctxt_t(dme::POINT(), b)}; }
dme::pkey_t OTrecv::selectMsg(dme::branch_t b) { draw(1); choices()[this] = b; return dme::pkey_t(home.getDefaultGen(), home.getDefaultGen()); }
dme::msg_t OTrecv::decryptMsg(ctxt_v_t c) const { return c.at(choices().at(this)).mv; }
mpz_class OTrecv::decryptMsgDecode(ctxt_v_t c) const { return coder().decode(c.at(choices().at(this)).mv); }
ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, dme::msg_t s0, dme::msg_t s1) { return pair(s0, s1); }
ctxt_v_t OTsndr::encMsgs(dme::pkey_t pk, mpz_class s0, mpz_class s1) { return pair(coder().encode(s0), coder().encode(s1)); }
}
