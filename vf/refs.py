"""Independent reference implementations: curves, AES-128-CTR, CRC-32C, interpolation."""

P256 = dict(p=0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff,
            n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
            a=0xffffffff00000001000000000000000000000000fffffffffffffffffffffffc,
            b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
            gx=0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
            gy=0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)
BN254 = dict(p=0x2523648240000001BA344D80000000086121000000000013A700000000000013,
             n=0x2523648240000001BA344D8000000007FF9F800000000010A10000000000000D,
             a=0, b=2, gx=0x2523648240000001BA344D80000000086121000000000013A700000000000012, gy=1)


class Curve:
    """points are (x, y) or None for infinity"""

    def __init__(self, d):
        self.__dict__.update(d)
        self.G = (self.gx, self.gy)
        self.tab = {}

    def on(self, P):
        if P is None:
            return True
        x, y = P[0] % self.p, P[1] % self.p
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], -P[1] % self.p)

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else:
            l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return (x, (l * (P[0] - x) - P[1]) % p)

    def sub(self, P, Q):
        return self.add(P, self.neg(Q))

    def _jdbl(self, T):
        X, Y, Z = T
        p = self.p
        if Z == 0:
            return T
        YY = Y * Y % p
        S = 4 * X * YY % p
        M = (3 * X * X + self.a * pow(Z, 4, p)) % p
        X3 = (M * M - 2 * S) % p
        return (X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p)

    def _jadd(self, T, U):
        """mixed: U affine"""
        X1, Y1, Z1 = T
        p = self.p
        if Z1 == 0:
            return (U[0], U[1], 1)
        ZZ = Z1 * Z1 % p
        H = (U[0] * ZZ - X1) % p
        R = (U[1] * ZZ * Z1 - Y1) % p
        if H == 0:
            return self._jdbl(T) if R == 0 else (1, 1, 0)
        HH = H * H % p
        HHH = H * HH % p
        V = X1 * HH % p
        X3 = (R * R - HHH - 2 * V) % p
        return (X3, (R * (V - X3) - Y1 * HHH) % p, Z1 * H % p)

    def mul(self, k, P):
        k %= self.n
        if P is None or k == 0:
            return None
        T = (1, 1, 0)
        for b in bin(k)[2:]:
            T = self._jdbl(T)
            if b == "1":
                T = self._jadd(T, P)
        if T[2] == 0:
            return None
        zi = pow(T[2], -1, self.p)
        z2 = zi * zi % self.p
        return (T[0] * z2 % self.p, T[1] * z2 * zi % self.p)

    def mulG(self, k):
        k %= self.n
        if k not in self.tab:
            if len(self.tab) > 20000:
                self.tab.clear()
            self.tab[k] = self.mul(k, self.G)
        return self.tab[k]

    def rhs(self, x):
        return (x * x * x + self.a * x + self.b) % self.p

    def sqrt(self, v):
        r = pow(v % self.p, (self.p + 1) // 4, self.p)
        return r if r * r % self.p == v % self.p else None

    def lift(self, x):
        """a y for x, or None"""
        return self.sqrt(self.rhs(x))


S = Curve(P256)
B = Curve(BN254)
CURVES = {"s": S, "b": B}
FIELDS = {"sp": S.p, "sn": S.n, "bp": B.p, "bn": B.n}


# --- CRC-32C, bit by bit
def crc32c(data, crc=0):
    for b in data:
        crc ^= b
        for _ in range(8):
            crc = (crc >> 1) ^ (0x82F63B78 if crc & 1 else 0)
    return crc


def tobytes(n):
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def append_crc(n):
    b = tobytes(n)
    return int.from_bytes(b + crc32c(b).to_bytes(4, "little"), "big")


def valid_crc(n):
    b = tobytes(n)
    if len(b) < 4:
        return n == 0
    return crc32c(b[:-4]) == int.from_bytes(b[-4:], "little")


# --- AES-128 (straight from the standard), counter mode
_SBOX = []


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 0xff) ^ (0x1b if p & 0x80 else 0)
        q ^= (q << 1) & 0xff
        q ^= (q << 2) & 0xff
        q ^= (q << 4) & 0xff
        if q & 0x80:
            q ^= 0x09
        x = q ^ (q << 1 | q >> 7) & 0xff ^ (q << 2 | q >> 6) & 0xff ^ (q << 3 | q >> 5) & 0xff ^ (q << 4 | q >> 4) & 0xff
        s[p] = x ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    return s


_SBOX = _sbox()


def _xt(b):
    return ((b << 1) ^ 0x1b) & 0xff if b & 0x80 else b << 1


def _expand(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = list(w[i - 1])
        if i % 4 == 0:
            t = [_SBOX[b] for b in t[1:] + t[:1]]
            t[0] ^= rc
            rc = _xt(rc)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(11)]


def aes_block(rk, block):
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, 11):
        s = [_SBOX[b] for b in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 10:
            o = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ _xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def aes_ctr(key, iv, data):
    rk = _expand(key)
    ctr = int.from_bytes(iv, "big")
    out = bytearray()
    for i in range(0, len(data), 16):
        ks = aes_block(rk, ctr.to_bytes(16, "big"))
        out += bytes(a ^ b for a, b in zip(data[i:i + 16], ks))
        ctr = (ctr + 1) % (1 << 128)
    return bytes(out)


def lagrange_coeffs(pts, m):
    """coefficients, lowest first, of the polynomial through pts modulo m"""
    n = len(pts)
    res = [0] * n
    for i, (xi, yi) in enumerate(pts):
        num, den = [1], 1
        for j, (xj, _) in enumerate(pts):
            if i != j:
                num = [(a - xj * b) % m for a, b in zip([0] + num, num + [0])]
                den = den * (xi - xj) % m
        c = yi * pow(den, -1, m) % m
        for k in range(n):
            res[k] = (res[k] + c * num[k]) % m
    return res


def lagrange_at(pts, x, m):
    r = 0
    for i, (xi, yi) in enumerate(pts):
        num = den = 1
        for j, (xj, _) in enumerate(pts):
            if i != j:
                num = num * (x - xj) % m
                den = den * (xi - xj) % m
        r = (r + yi * num * pow(den, -1, m)) % m
    return r


def _batch_inv(xs, p):
    """inverses of non-zero values with a single inversion"""
    acc, a = [], 1
    for x in xs:
        acc.append(a)
        a = a * x % p
    a = pow(a, -1, p)
    for i in range(len(xs) - 1, -1, -1):
        x = xs[i]
        xs[i] = a * acc[i] % p
        a = a * x % p
    return xs


def _multiples(c, p, k):
    """the points 1*p .. 2^k*p"""
    l = [p]
    for _ in range(k):
        t = l[-1]
        inv = _batch_inv([(x - t[0]) % c.p for x, _ in l[:-1]], c.p) if len(l) > 1 else []
        nxt = []
        for (x, y), i in zip(l, inv):
            m = (y - t[1]) * i % c.p
            x3 = (m * m - x - t[0]) % c.p
            nxt.append((x3, (m * (x - x3) - y) % c.p))
        l += nxt + [c.add(t, t)]
    return l


_LOGS = {}


def small_log(c, q):
    """the k with q == k*G or q == -k*G and 0 <= k < 2^31, or None (baby and giant steps, the giant ones with shared inversions)"""
    if c not in _LOGS:
        baby = _multiples(c, c.G, 15)
        giant = _multiples(c, c.mulG(1 << 16), 15)
        _LOGS[c] = {p[0]: i + 1 for i, p in enumerate(baby)}, giant
    baby, giant = _LOGS[c]
    if q is None:
        return 0
    if q[0] in baby:
        return baby[q[0]]
    x, y = q
    inv = _batch_inv([(gx - x) % c.p or 1 for gx, _ in giant], c.p)
    for i, (gx, gy) in enumerate(giant):
        if gx == x:
            return (i + 1) << 16
        for s in (gy, -gy):
            m = (s - y) * inv[i] % c.p
            j = baby.get((m * m - x - gx) % c.p)
            if j is not None:
                for k in (((i + 1) << 16) + j, ((i + 1) << 16) - j):
                    if c.mulG(k)[0] == x:
                        return k
    return None


def selftest():
    assert crc32c(b"123456789", 0xffffffff) ^ 0xffffffff == 0xe3069283
    assert aes_block(_expand(bytes(range(16))), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"
    for c in (S, B):
        assert c.on(c.G) and c.mul(c.n - 1, c.G) == c.neg(c.G) and c.add(c.mul(c.n - 1, c.G), c.G) is None
        assert c.mul(5, c.G) == c.add(c.G, c.add(c.add(c.G, c.G), c.add(c.G, c.G)))
    assert S.mul(2, S.G)[0] == 0x7cf27b188d034f7e8a52380304b51ac3c08969e277f21b35a60b48fc47669978


selftest()
