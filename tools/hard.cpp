// Offline search for messages whose first candidate coordinates are all off secp256r1: hard <shift> <seed> <tries> <min run> [stride]
// With a stride, for messages none of whose candidates at that distance is on the curve.
#include <gmpxx.h>
#include <cstdio>
#include <cstdlib>
int main(int c, char** v)
{
    int shift = atoi(v[1]); long tries = atol(v[3]); int best = atoi(v[4]), stride = c > 5 ? atoi(v[5]) : 1;
    mpz_class p("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 16), b("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", 16);
    gmp_randclass rnd(gmp_randinit_default); rnd.seed(atol(v[2]));
    mpz_class m, x, y;
    for (long i = 0; i < tries; i++)
    {
        if (i % 4096 == 0) m = rnd.get_z_bits(i % 8192 ? 128 : 256 - shift - 1); else m += 1;
        x = m << shift;
        int run = 0;
        for (;; run++, x += stride)
        {
            y = ((x * x - 3) * x + b) % p;
            if (mpz_jacobi(y.get_mpz_t(), p.get_mpz_t()) >= 0) break;
        }
        if (run >= best) { printf("%d %s\n", run, m.get_str(16).c_str()); fflush(stdout); }
    }
}
