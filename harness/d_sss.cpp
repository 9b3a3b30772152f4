// Shamir secret sharing.
#include <set>
#include "bulk.hpp"
#include "shamirss.hpp"
using namespace proto;
static Regs<sss::ShamirSS> objs;
static sss::ShamirSS& obj(const std::string& k) { if (!objs.m.count(k)) objs.emplace(k); return objs.at(k); }
// share <obj> t n secret -> count, idx val ...
CMD(share)
{
    sss::ShamirSS& o = obj(a.s()); size_t t = a.n(), n = a.n(); sss::FIELD s(a.z());
    sss::share_v_t v = o.getShares(t, n, s);
    out << v.size() << " ";
    for (auto& x : v) out << hex(x.idx.getRawValue()) << " " << hex(x.val.getRawValue()) << " ";
}
// pick <obj> t n secret <position>... -> count, distinct indices, indices equal to 0, the shares at these positions
CMD(pick)
{
    sss::ShamirSS& o = obj(a.s()); size_t t = a.n(), n = a.n(); sss::FIELD s(a.z());
    sss::share_v_t v = o.getShares(t, n, s);
    std::set<mpz_class> idx;
    size_t zero = 0;
    for (auto& x : v) { idx.insert(x.idx.getRawValue()); zero += x.idx.getRawValue() == 0; }
    out << v.size() << " " << idx.size() << " " << zero << " ";
    while (a.more()) { auto& x = v.at(a.n()); out << hex(x.idx.getRawValue()) << " " << hex(x.val.getRawValue()) << " "; }
}
CMD(recon)
{
    sss::ShamirSS& o = obj(a.s()); sss::share_v_t v;
    while (a.more()) { sss::FIELD i(a.z()), y(a.z()); v.push_back(sss::share_t(i, y)); }
    sss::FIELD r = o.reconSecret(v);
    out << hex(r.getRawValue()) << " " << hex(r.getField());
}
CMD(burn) { long n = a.n(); sss::ShamirSS o; for (long i = 0; i < n; i++) { rand(); o.getShares(2, 2, sss::FIELD(1)); } srand(a.n()); }
CMD(leak)
{
    long n = a.n(), t = a.n(), m = a.n(); sss::FIELD s(a.z());
    auto once = [&] { sss::ShamirSS o; sss::share_v_t v = o.getShares(t, m, s); o.reconSecret(v); };
    for (int i = 0; i < 3; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
// bulk <order> <seed> <count>
CMD(bulk)
{
    using bulk::h;
    mpz_class q = a.z();
    sss::ShamirSS o;
    bulk::run(a, out, [&](bulk::Rnd& r) {
        size_t t = r.in(1, r.one(4) ? 12 : 5), n = t + r.in(0, r.one(4) ? 12 : 3);
        mpz_class s = bulk::md(r.about(q), q);
        if (r.one(4)) rand();
        sss::share_v_t v = o.getShares(t, n, sss::FIELD(s)), w;
        std::string at = "secret " + h(s) + ", threshold " + std::to_string(t) + " of " + std::to_string(n);
        bulk::yes(v.size() == n, "number of shares, " + at);
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.in(0, i - 1)]);
        size_t k = r.in(t, n);
        mpz_class sum = 0;
        for (size_t i = 0; i < k; i++)
        {
            w.push_back(v[i]);
            mpz_class l = v[i].val.getRawValue();
            for (size_t j = 0; j < k; j++)
                if (j != i) l = bulk::md(l * v[j].idx.getRawValue() * bulk::inv(v[j].idx.getRawValue() - v[i].idx.getRawValue(), q), q);
            sum += l;
            at += ", share (" + h(v[i].idx.getRawValue()) + ", " + h(v[i].val.getRawValue()) + ")";
        }
        bulk::same(bulk::md(sum, q), s, "interpolation of the shares, " + at);
        bulk::same(o.reconSecret(w).getRawValue(), s, "reconstruction, " + at);
    });
}
// many <order> <secret> <sharings>: the coefficients of polynomials of degree 2
CMD(many)
{
    mpz_class q = a.z(), s = a.z(), next;
    long n = a.n();
    sss::ShamirSS o;
    bool have = false;
    bulk::many(out, 2 * n, q, [&] {
        if (have) { have = false; return next; }
        sss::share_v_t v = o.getShares(3, 3, sss::FIELD(s));
        mpz_class u = v[0].val.getRawValue() - s, w = v[1].val.getRawValue() - s; // u = a + b, w = 2a + 4b
        next = bulk::md((w - 2 * u) * bulk::inv(2, q), q);
        have = true;
        return bulk::md(u - next, q);
    });
}
int main() { return serve(); }
