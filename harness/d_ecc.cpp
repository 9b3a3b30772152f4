// Points and curves of both curve types on registers. Commands are "s <op> ..." (secp256r1) and "b <op> ..." (bn254).
#include "bulk.hpp"
#include "ecc_secp256r1.hpp"
#include "ecc_bn254.hpp"
#include "utilities.hpp"
using namespace proto;

template <typename C, typename P, typename FP, typename FN> struct EccRegs
{
    Regs<C> curves;
    Regs<P> r;
    C& curve(const std::string& k) { if (!curves.m.count(k)) curves.emplace(k); return curves.at(k); }
    static void show(std::ostream& out, const P& p)
    {
        if (p.isInf()) out << "inf ";
        else out << hex(p.getX().getRawValue()) << " " << hex(p.getY().getRawValue()) << " ";
    }
    void run(Args& a, std::ostream& out)
    {
        std::string op = a.s();
        // queries on a curve object
        if (op == "curve") { C& c = curve(a.s()); out << hex(c.getPrime()) << " " << hex(c.getOrder()) << " " << hex(c.getA()) << " " << hex(c.getB()) << " "
                << hex(c.getAField().getRawValue()) << " " << hex(c.getBField().getRawValue()) << " "; show(out, c.getDefaultGen()); return; }
        if (op == "curveeq") { C& c = curve(a.s()); C& d = curve(a.s()); out << (c == d); return; }
        if (op == "curveprint") { std::ostringstream os; os << curve(a.s()); out << hexs(os.str()); return; }
        if (op == "dropcurve") { curves.drop(a.s()); return; }
        if (op == "scalar") { out << hex(curve(a.s()).getRandomScalar().getRawValue()); return; }
        if (op == "scalars") { C& c = curve(a.s()); long n = a.n(); while (n--) out << hex(c.getRandomScalar().getRawValue()) << " "; return; }
        if (op == "many") { C& c = curve(a.s()); long n = a.n(); bulk::many(out, n, c.getOrder(), [&] { return c.getRandomScalar().getRawValue(); }); return; }
        if (op == "burn") { C& c = curve(a.s()); long n = a.n(); while (n-- > 0) c.getRandomScalar(); return; }
        if (op == "y2") { C& c = curve(a.s()); out << hex(c.evaluatePy2(FP(a.z())).getRawValue()); return; }
        std::string d = a.s();
        bool same = true;
        if (op == "inf") r.emplace(d);
        else if (op == "ptz") { C& c = curve(a.s()); mpz_class x = a.z(), y = a.z(); r.emplace(d, x, y, &c); }
        else if (op == "ptf") { C& c = curve(a.s()); FP x(a.z()), y(a.z()); r.emplace(d, x, y, &c); }
        else if (op == "pts") { C& c = curve(a.s()); std::string x = a.s(), y = a.s(); int b = a.n(); r.emplace(d, x, y, &c, b); }
        else if (op == "ptc") { C& c = curve(a.s()); std::string x = a.s(), y = a.s(); int b = a.n(); r.emplace(d, x.c_str(), y.c_str(), &c, b); }
        else if (op == "ptdef") { C& c = curve(a.s()); std::string x = a.s(), y = a.s(); r.emplace(d, x, y, &c); }
        else if (op == "gen") r.emplace(d, curve(a.s()).getDefaultGen());
        else if (op == "rnd") r.emplace(d, curve(a.s()).getRandomPoint());
        else if (op == "key")
        {
            C& c = curve(a.s());
            auto k = c.generateKeyPair();
            out << hex(k.sk) << " ";
            if (k.pk.isInf()) out << "inf "; else out << hex(k.pk.getX().getRawValue()) << " " << hex(k.pk.getY().getRawValue()) << " ";
            return;
        }
        else if (op == "evP") { C& c = curve(a.s()); r.emplace(d, c.evaluateP(FP(a.z()))); }
        else if (op == "evN") { C& c = curve(a.s()); r.emplace(d, c.evaluatePneg(FP(a.z()))); }
        else if (op == "copy") { P& s = r.get(a); r.emplace(d, s); }
        else if (op == "asg") { P& t = r.at(d); P& s = r.get(a); same = &(t = s) == &t; }
        else if (op == "add") { P& x = r.get(a); P& y = r.get(a); P z = x + y; r.emplace(d, z); }
        else if (op == "sub") { P& x = r.get(a); P& y = r.get(a); P z = x - y; r.emplace(d, z); }
        else if (op == "dbl") { P z = r.get(a).pointDouble(); r.emplace(d, z); }
        else if (op == "mulz") { P& x = r.get(a); mpz_class k = a.z(); P z = x * k; r.emplace(d, z); }
        else if (op == "mulf") { P& x = r.get(a); FN k(a.z()); P z = x * k; r.emplace(d, z); }
        else if (op == "muli") { P& x = r.get(a); int k = a.n(); P z = x * k; r.emplace(d, z); }
        else if (op == "addeq") { P& t = r.at(d); same = &(t += r.get(a)) == &t; }
        else if (op == "subeq") { P& t = r.at(d); same = &(t -= r.get(a)) == &t; }
        else if (op == "mulzeq") { P& t = r.at(d); mpz_class k = a.z(); same = &(t *= k) == &t; }
        else if (op == "mulfeq") { P& t = r.at(d); FN k(a.z()); same = &(t *= k) == &t; }
        else if (op == "eq") { out << (r.at(d) == r.get(a)); return; }
        else if (op == "valid") { out << r.at(d).isValid(); return; }
        else if (op == "print") { std::ostringstream os; os << r.at(d); out << hexs(os.str()); return; }
        else if (op == "enc") { out << hex(r.at(d).getEncodedX()); return; }
        else if (op == "setenc") { r.at(d).setEncodedX(a.z()); }
        else if (op == "setx") { r.at(d).setEncodedX(r.get(a).getEncodedX()); }
        else if (op == "get") {}
        else if (op == "bind") { r.at(d).curve = &curve(a.s()); }
        else if (op == "fields") { P& p = r.at(d); out << hex(p.getX().getField()) << " " << hex(p.getY().getField()); return; }
        else throw protocol_error("bad op " + op);
        P& p = r.at(d);
        show(out, p);
        out << p.isValid() << " " << same;
    }
    static bulk::RP ref(const P& p)
    {
        bulk::RP r;
        if (!p.isInf()) { r.inf = false; r.x = p.getX().getRawValue(); r.y = p.getY().getRawValue(); }
        return r;
    }
    static void same(const P& p, const bulk::RP& want, const std::string& what)
    {
        bulk::RP g = ref(p);
        if (!(g == want)) throw bulk::Bad(what + ": got " + bulk::h(g) + ", expected " + bulk::h(want));
    }
    static bulk::RP anyPoint(bulk::Rnd& r, const bulk::RC& c)
    {
        using namespace bulk;
        RP q;
        if (r.one(12)) return q;
        if (r.one(2))
        {
            q = c.mul(c.G(), r.in(1, 60));
            return r.one(2) ? c.neg(q) : q;
        }
        q.inf = false;
        for (q.x = md(r.about(c.p), c.p); !c.lift(q.x, q.y); q.x = md(q.x + 1, c.p)) {}
        return r.one(2) ? c.neg(q) : q;
    }
    // a point whose x is a near miss of another's: shares limbs, low, high or middle bits with it
    static bulk::RP beside(bulk::Rnd& r, const bulk::RC& c, const bulk::RP& p)
    {
        using namespace bulk;
        if (p.inf) return anyPoint(r, c);
        RP q;
        q.inf = false;
        do q.x = md(r.nudge(p.x, mpz_sizeinbase(c.p.get_mpz_t(), 2)), c.p); while (!c.lift(q.x, q.y));
        return r.one(2) ? c.neg(q) : q;
    }
    static P make(const bulk::RP& q, C& c) { return q.inf ? P() : P(q.x, q.y, &c); }
    // bulk <curve type> hist <curve> <length> <seed> <count>
    void bulkHist(Args& a, std::ostream& out)
    {
        using namespace bulk;
        RC rc = bulk::curve(a);
        long len = a.n();
        C c, c2;
        bulk::run(a, out, [&](Rnd& r) {
            P p[4];
            RP v[4];
            S log;
            for (int i = 0; i < 4; i++)
            {
                v[i] = i && r.one(4) ? rc.neg(v[r.in(0, i - 1)]) : i && r.one(3) ? beside(r, rc, v[r.in(0, i - 1)]) : anyPoint(r, rc);
                p[i] = make(v[i], r.one(3) ? c2 : c);
                log += h(v[i]) + " ";
            }
            for (long s = 0; s < len; s++)
            {
                int d = r.in(0, 3), x = r.in(0, 3), y = r.in(0, 3), op = r.in(0, 11);
                long k = 0;
                switch (op)
                {
                case 0: case 1: p[d] = p[x] + p[y]; v[d] = rc.add(v[x], v[y]); break;
                case 2: p[d] = p[x] - p[y]; v[d] = rc.add(v[x], rc.neg(v[y])); break;
                case 3: p[d] = p[x].pointDouble(); v[d] = rc.add(v[x], v[x]); break;
                case 4: p[d] += p[x]; v[d] = rc.add(v[d], v[x]); break;
                case 5: p[d] -= p[x]; v[d] = rc.add(v[d], rc.neg(v[x])); break;
                case 6: p[d] = p[x]; v[d] = v[x]; break;
                case 7: k = r.in(-20, 20); p[d] *= mpz_class(k); v[d] = rc.mul(v[d], k); break;
                case 8: k = r.in(0, 5000); p[d] = p[x] * mpz_class(k); v[d] = rc.mul(v[x], k); break;
                case 9: { P t(p[x]); p[d] = t; v[d] = v[x]; break; }
                case 10: v[d] = r.one(2) ? beside(r, rc, v[x]) : anyPoint(r, rc); p[d] = make(v[d], c); break;
                default: v[d] = rc.neg(v[x]); p[d] = make(v[d], c2);
                }
                log += " " + std::to_string(op) + ":" + std::to_string(d) + std::to_string(x) + std::to_string(y) + (k ? "(" + std::to_string(k) + ")" : "");
                for (int i = 0; i < 4; i++) same(p[i], v[i], "point " + std::to_string(i) + " after " + log);
                yes(p[d].isValid(), "validity of point " + std::to_string(d) + " after " + log);
                yes((p[x] == p[y]) == (v[x] == v[y]), "equality of points " + std::to_string(x) + " and " + std::to_string(y) + " after " + log);
            }
        });
    }
    // bulk <curve type> coords <curve> <seed> <count>: validity and equality of coordinates
    void bulkCoords(Args& a, std::ostream& out)
    {
        using namespace bulk;
        RC rc = bulk::curve(a);
        C c;
        size_t nb = mpz_sizeinbase(rc.p.get_mpz_t(), 2);
        bulk::run(a, out, [&](Rnd& r) {
            mpz_class x = md(r.about(rc.p), rc.p), y, v = rc.rhs(x), e = (rc.p + 1) / 4;
            if (r.one(3)) { while (!rc.lift(x, y)) x = md(x + 1, rc.p); v = md(r.nudge(y, nb), rc.p); if (r.one(3)) v = y; y = v; }
            else
            {
                v = md(r.one(5) ? mpz_class(v - rc.b) : r.one(5) ? mpz_class(v - rc.a * x) : r.one(5) ? mpz_class(-v) : r.nudge(v, nb), rc.p);
                mpz_powm(y.get_mpz_t(), v.get_mpz_t(), e.get_mpz_t(), rc.p.get_mpz_t());
            }
            if (r.one(6)) std::swap(x, y);
            if (r.one(6)) x = md(r.nudge(x, nb), rc.p);
            P p(x, y, &c);
            S at = "(" + h(x) + ", " + h(y) + ")";
            yes(p.isValid() == rc.on(x, y), "validity of " + at);
            mpz_class x2 = r.one(2) ? x : md(r.nudge(x, nb), rc.p), y2 = x2 != x && r.one(2) ? y : md(r.one(3) ? mpz_class(-y) : r.nudge(y, nb), rc.p);
            P q(x2, y2, &c);
            yes((p == q) == (x == x2 && y == y2), "equality of " + at + " and (" + h(x2) + ", " + h(y2) + ")");
            yes((q == p) == (x == x2 && y == y2), "equality of (" + h(x2) + ", " + h(y2) + ") and " + at);
        });
    }
    // bulk <curve type> eval <curve> <seed> <count>: evaluation and compression
    void bulkEval(Args& a, std::ostream& out)
    {
        using namespace bulk;
        RC rc = bulk::curve(a);
        C c;
        P w = c.getDefaultGen();
        bulk::run(a, out, [&](Rnd& r) {
            mpz_class x = r.about(rc.p), y, xx = md(x, rc.p);
            FP fx(x);
            bulk::same(c.evaluatePy2(fx).getRawValue(), rc.rhs(xx), "right-hand side at " + h(x));
            P p = c.evaluateP(fx), q = c.evaluatePneg(fx);
            if (!rc.lift(xx, y))
            {
                yes(p.isInf() && q.isInf(), "evaluation at " + h(x) + " where there is no point");
                return;
            }
            RP u = ref(p);
            yes(!u.inf && u.x == xx && rc.on(u.x, u.y) && sgn(u.y) >= 0 && u.y < rc.p, "evaluation at " + h(x) + ": " + h(u));
            same(q, rc.neg(u), "second evaluation at " + h(x));
            mpz_class e = p.getEncodedX(), f = q.getEncodedX();
            yes(e != f || u.y == 0, "encodings of a point and its negative at " + h(x));
            w.setEncodedX(f); same(w, rc.neg(u), "decoded negative at " + h(x));
            w.setEncodedX(e); same(w, u, "decoded point at " + h(x));
        });
    }
    // bulk <curve type> passing <curve> <ops> <seed> <count>: histories of curve objects, each gone, with every point made on it,
    // before the next but one comes; later ones are asked for what earlier ones were asked for
    void bulkPassing(Args& a, std::ostream& out)
    {
        using namespace bulk;
        RC rc = bulk::curve(a);
        S ops = a.s();
        bulk::run(a, out, [&](Rnd& r) {
            mpz_class xs[3], ks[3];
            RP ps[3];
            for (int i = 0; i < 3; i++)
            {
                mpz_class y;
                for (xs[i] = md(r.about(rc.p), rc.p); !rc.lift(xs[i], y); xs[i] = md(xs[i] + 1, rc.p)) {}
                ks[i] = r.one(2) ? mpz_class(r.in(0, 3000)) : r.bits(r.in(1, 24));
                ps[i] = anyPoint(r, rc);
            }
            if (r.one(2)) ps[1] = rc.neg(ps[0]);
            std::unique_ptr<C> was;
            std::vector<P> kept; // points of the curve before
            S log;
            for (int i = r.in(2, 6); i--;)
            {
                std::unique_ptr<C> c(new C);
                std::vector<P> l;
                for (int k = r.in(1, 4); k--;)
                {
                    char op = ops[r.in(0, ops.size() - 1)];
                    int u = r.in(0, 2), v = r.in(0, 2);
                    S at = " on curve object " + std::to_string(i) + " from the last" + (log.empty() ? S() : ", after" + log);
                    log += S(" ") + op + std::to_string(u);
                    P p;
                    RP want;
                    if (op == 'e' || op == 'n' || op == 'c')
                    {
                        p = op == 'n' ? c->evaluatePneg(FP(xs[u])) : c->evaluateP(FP(xs[u]));
                        want = ref(p);
                        yes(!want.inf && want.x == xs[u] && rc.on(want.x, want.y), "evaluation at " + h(xs[u]) + at);
                        if (op == 'c')
                        {
                            P w = c->getDefaultGen();
                            w.setEncodedX(p.getEncodedX());
                            same(w, want, "decoded point" + at);
                            p = w;
                        }
                    }
                    else if (op == 'a' || op == 's' || op == 'd')
                    {
                        P x = make(ps[u], *c), y = make(ps[v], *c);
                        p = op == 'a' ? x + y : op == 's' ? x - y : x.pointDouble();
                        want = rc.add(ps[u], op == 'a' ? ps[v] : op == 's' ? rc.neg(ps[v]) : ps[u]);
                        same(p, want, "result" + at);
                    }
                    else if (op == 'm' || op == 'g')
                    {
                        P x = op == 'g' ? c->getDefaultGen() : make(ps[u], *c);
                        p = r.one(2) ? x * ks[v] : x * FN(ks[v]);
                        want = rc.mul(op == 'g' ? rc.G() : ps[u], ks[v]);
                        same(p, want, "multiple by " + h(ks[v]) + at);
                    }
                    else
                    {
                        p = c->getRandomPoint();
                        auto k = c->generateKeyPair();
                        yes(!k.pk.isInf() && k.pk.isValid() && k.pk.pointDouble().isValid(), "validity of a public key" + at);
                        want = ref(p);
                        yes(!want.inf && rc.on(want.x, want.y), "random point" + at);
                    }
                    // the result goes on working, alone and with others
                    yes(p.isValid(), "validity of the result" + at);
                    same(p.pointDouble(), rc.add(want, want), "double of the result" + at);
                    if (!l.empty()) same(p + l.back(), rc.add(want, ref(l.back())), "sum with the result before" + at);
                    if (!kept.empty()) yes((p == kept.back()) == (want == ref(kept.back())), "equality with a result on the curve object before" + at);
                    if (!want.inf) yes(p.getEncodedX() != (P() - p).getEncodedX(), "encodings" + at);
                    l.push_back(p);
                }
                kept.clear();
                was = std::move(c); // the one before goes
                kept.swap(l);
            }
        });
    }
    void leak(Args& a, std::ostream& out)
    {
        long n = a.n();
        mpz_class k = a.z(), x = a.z();
        auto once = [&] {
            C c;
            P g = c.getDefaultGen(), p = c.getRandomPoint(), q = c.evaluateP(FP(x)), o;
            p += g; p -= o; p = p.pointDouble(); p *= k; p = p - p;
            if (!q.isInf()) { P s = g; s.setEncodedX(q.getEncodedX()); bool e = s == q; (void)e; }
            auto kp = c.generateKeyPair();
            std::ostringstream os; os << g << c;
        };
        for (int i = 0; i < 3; i++) once();
        size_t b0 = live_bytes();
        for (long i = 0; i < n; i++) once();
        out << (long)(live_bytes() - b0);
    }
};
static EccRegs<ecc::Curve_secp256r1, ecc::Point_secp256r1, field::Field_secp256r1_p, field::Field_secp256r1_n> S;
static EccRegs<ecc::Curve_bn254, ecc::Point_bn254, field::Field_bn254_p, field::Field_bn254_n> B;
CMD(s) { S.run(a, out); }
CMD(b) { B.run(a, out); }
CMD(leak) { if (a.s() == "s") S.leak(a, out); else B.leak(a, out); }
CMD(getrandom) { out << hex(utils::getRandom(a.n())); }
CMD(manyz) { long bits = a.n(), n = a.n(); bulk::many(out, n, mpz_class(1) << bits, [&] { return utils::getRandom(bits); }); }
CMD(getrandoms) { long bits = a.n(), n = a.n(); while (n--) out << hex(utils::getRandom(bits)) << " "; }
template <typename E> static void bulk_of(E& e, Args& a, std::ostream& out)
{
    std::string what = a.s();
    if (what == "hist") e.bulkHist(a, out); else if (what == "coords") e.bulkCoords(a, out); else if (what == "passing") e.bulkPassing(a, out); else e.bulkEval(a, out);
}
CMD(bulk) { if (a.s() == "s") bulk_of(S, a, out); else bulk_of(B, a, out); }
int main() { return serve(); }
