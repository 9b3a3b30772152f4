// Field arithmetic on registers of the four prime fields.
#include "bulk.hpp"
#include "field_secp256r1.hpp"
#include "field_bn254.hpp"
using namespace proto;

template <typename F> struct FieldRegs
{
    Regs<F> r;
    static void show(std::ostream& out, const F& f) { out << hex(f.getRawValue()) << " " << hex(f.getField()) << " "; }
    void run(Args& a, std::ostream& out)
    {
        std::string op = a.s(), d = a.s();
        bool same = true; // compound operators must return their target
        if (op == "new") r.emplace(d, a.z());
        else if (op == "def") r.emplace(d);
        else if (op == "copy") { F& s = r.get(a); r.emplace(d, s); }
        else if (op == "asg") { F& t = r.at(d); F& s = r.get(a); same = &(t = s) == &t; }
        else if (op == "add") { F& x = r.get(a); F& y = r.get(a); F z = x + y; r.emplace(d, z); }
        else if (op == "sub") { F& x = r.get(a); F& y = r.get(a); F z = x - y; r.emplace(d, z); }
        else if (op == "mul") { F& x = r.get(a); F& y = r.get(a); F z = x * y; r.emplace(d, z); }
        else if (op == "div") { F& x = r.get(a); F& y = r.get(a); F z = x / y; r.emplace(d, z); }
        else if (op == "neg") { F z = -r.get(a); r.emplace(d, z); }
        else if (op == "inv") { F z = r.get(a).invert(); r.emplace(d, z); }
        else if (op == "sq") { F z = r.get(a).square(); r.emplace(d, z); }
        else if (op == "mulz") { F& x = r.get(a); mpz_class k = a.z(); F z = x * k; r.emplace(d, z); }
        else if (op == "addeq") { F& t = r.at(d); same = &(t += r.get(a)) == &t; }
        else if (op == "subeq") { F& t = r.at(d); same = &(t -= r.get(a)) == &t; }
        else if (op == "muleq") { F& t = r.at(d); same = &(t *= r.get(a)) == &t; }
        else if (op == "diveq") { F& t = r.at(d); same = &(t /= r.get(a)) == &t; }
        else if (op == "mulzeq") { F& t = r.at(d); mpz_class k = a.z(); same = &(t *= k) == &t; }
        else if (op == "chain") { F& t = r.at(d); F& x = r.get(a); F& y = r.get(a); (t += x) *= y; }
        else if (op == "setp") { r.at(d).setField(a.z()); }
        else if (op == "eq") { bool e = r.at(d) == r.get(a); out << e; return; }
        else if (op == "print") { std::ostringstream os; os << r.at(d); out << hexs(os.str()); return; }
        else if (op == "get") {}
        else if (op == "all")
        {
            for (auto& kv : r.m) { out << kv.first << " "; show(out, *kv.second); }
            return;
        }
        else throw protocol_error("bad op " + op);
        show(out, r.at(d));
        out << same;
    }
};
static FieldRegs<field::Field_secp256r1_p> sp;
static FieldRegs<field::Field_secp256r1_n> sn;
static FieldRegs<field::Field_bn254_p> bp;
static FieldRegs<field::Field_bn254_n> bn;
CMD(sp) { sp.run(a, out); }
CMD(sn) { sn.run(a, out); }
CMD(bp) { bp.run(a, out); }
CMD(bn) { bn.run(a, out); }

// heap growth of n repetitions of an operation mix
template <typename F> static void leak(Args& a, std::ostream& out)
{
    long n = a.n();
    mpz_class u = a.z(), v = a.z();
    auto once = [&] {
        F x(u), y(v), w;
        F s = x + y; s -= x; s *= y; s = s * u; s *= v; w = -s; w += x.square();
        if (y.getRawValue() != 0) { w = x / y; w /= y; w = y.invert(); }
        bool e = w == s; (void)e;
        std::ostringstream os; os << w;
    };
    for (int i = 0; i < 20; i++) once();
    size_t b0 = live_bytes();
    for (long i = 0; i < n; i++) once();
    out << (long)(live_bytes() - b0);
}
CMD(leak) { std::string t = a.s(); if (t == "sp") leak<field::Field_secp256r1_p>(a, out); else leak<field::Field_bn254_n>(a, out); }

// bulk ops|hist <field> <prime> [length] <seed> <count>
template <typename F> static void field_ops(Args& a, std::ostream& out)
{
    using namespace bulk;
    mpz_class p = a.z();
    run(a, out, [&](Rnd& r) {
        mpz_class x = r.about(p), y = r.beside(x, p), k = r.one(3) ? r.beside(x, p) : r.about(p), u = md(x, p), v = md(y, p), z;
        S at = " of " + h(x) + " and " + h(y);
        F f(x), g(y);
        auto raw = [](const F& q) { return q.getRawValue(); };
        same(raw(f), u, "value of " + h(x));
        same(raw(f + g), md(u + v, p), "sum" + at);
        same(raw(f - g), md(u - v, p), "difference" + at);
        same(raw(f * g), md(u * v, p), "product" + at);
        same(raw(-f), md(-u, p), "opposite of " + h(x));
        same(raw(f.square()), md(u * u, p), "square of " + h(x));
        same(raw(f * k), md(u * k, p), "integer multiple of " + h(x) + " by " + h(k));
        yes((f == g) == (u == v), "equality" + at);
        if (v != 0)
        {
            z = inv(v, p);
            same(raw(f / g), md(u * z, p), "quotient" + at);
            same(raw(g.invert()), z, "inverse of " + h(y));
        }
        same(raw(f), u, "first operand afterwards" + at);
        same(raw(g), v, "second operand afterwards" + at);
        F w(f);
        switch (r.in(0, 7))
        {
        case 0: w += g; z = md(u + v, p); break;
        case 1: w -= g; z = md(u - v, p); break;
        case 2: w *= g; z = md(u * v, p); break;
        case 3: if (v == 0) z = u; else { w /= g; z = md(u * inv(v, p), p); } break;
        case 4: w *= k; z = md(u * k, p); break;
        case 5: w += w; z = md(u + u, p); break;
        case 6: w *= w; z = md(u * u, p); break;
        default: w -= w; z = 0;
        }
        same(raw(w), z, "update" + at + ", integer " + h(k));
        same(w.getField(), p, "modulus after an update" + at);
    });
}
template <typename F> static void field_hist(Args& a, std::ostream& out)
{
    using namespace bulk;
    mpz_class p = a.z();
    long len = a.n();
    run(a, out, [&](Rnd& r) {
        F f[4];
        mpz_class v[4], k;
        for (int i = 0; i < 4; i++) { v[i] = i && r.one(2) ? r.beside(v[i - 1], p) : r.about(p); f[i] = F(v[i]); v[i] = md(v[i], p); }
        S log;
        for (long s = 0; s < len; s++)
        {
            int d = r.in(0, 3), x = r.in(0, 3), y = r.in(0, 3), op = r.in(0, 14);
            if ((op == 3 || op == 9) && v[op == 3 ? y : x] == 0) op = 0;
            switch (op)
            {
            case 0: f[d] = f[x] + f[y]; v[d] = md(v[x] + v[y], p); break;
            case 1: f[d] = f[x] - f[y]; v[d] = md(v[x] - v[y], p); break;
            case 2: f[d] = f[x] * f[y]; v[d] = md(v[x] * v[y], p); break;
            case 3: f[d] = f[x] / f[y]; v[d] = md(v[x] * inv(v[y], p), p); break;
            case 4: f[d] = -f[x]; v[d] = md(-v[x], p); break;
            case 5: f[d] = f[x].square(); v[d] = md(v[x] * v[x], p); break;
            case 6: f[d] += f[x]; v[d] = md(v[d] + v[x], p); break;
            case 7: f[d] -= f[x]; v[d] = md(v[d] - v[x], p); break;
            case 8: f[d] *= f[x]; v[d] = md(v[d] * v[x], p); break;
            case 9: { mpz_class z = inv(v[x], p); f[d] /= f[x]; v[d] = md(v[d] * z, p); break; }
            case 10: k = r.beside(v[d], p); f[d] *= k; v[d] = md(v[d] * k, p); break;
            case 11: f[d] = f[x]; v[d] = v[x]; break;
            case 12: { F t(f[x]); f[d] = t; v[d] = v[x]; break; }
            case 13: k = r.beside(v[x], p); f[d] = F(k); v[d] = md(k, p); break;
            default: (f[d] += f[x]) *= f[y]; v[d] = md(v[d] + v[x], p); v[d] = md(v[d] * v[y], p);
            }
            log += " " + std::to_string(op) + ":" + std::to_string(d) + std::to_string(x) + std::to_string(y);
            for (int i = 0; i < 4; i++) same(f[i].getRawValue(), v[i], "register " + std::to_string(i) + " after" + log);
            yes((f[d] == f[x]) == (v[d] == v[x]), "equality of registers after" + log);
        }
    });
}
template <typename F> static void field_bulk(const std::string& what, Args& a, std::ostream& out) { if (what == "ops") field_ops<F>(a, out); else field_hist<F>(a, out); }
CMD(bulk)
{
    std::string what = a.s(), t = a.s();
    if (t == "sp") field_bulk<field::Field_secp256r1_p>(what, a, out);
    else if (t == "sn") field_bulk<field::Field_secp256r1_n>(what, a, out);
    else if (t == "bp") field_bulk<field::Field_bn254_p>(what, a, out);
    else field_bulk<field::Field_bn254_n>(what, a, out);
}

int main() { return serve(); }
