"""C25: checked decryption of what it should not accept."""
from ..engine import Facet
from ..gens import *
from .. import refs, bulk
from .c24 import K, key, text, vector


def gen(r):
    k, m = key(r), text(r, 200)
    w = r.int(0, 9)
    if w < 4:  # a change within four consecutive bytes; position counted from the end or the start of the ciphertext
        width = r.int(1, 4)
        bits = r.weighted((2, lambda: r.int(1, (1 << (8 * width)) - 1)), (1, lambda: 1 << r.int(0, 8 * width - 1)), (1, lambda: 0xFF << (8 * r.int(0, width - 1))))
        act = ["flip", r.weighted((2, lambda: r.int(0, 4)), (2, lambda: r.int(0, 40)), (1, lambda: r.int(0, 300))), r.chance(0.4), bits]
    elif w < 7:  # another key
        k2 = r.weighted((2, lambda: k ^ 1 << r.int(0, 127)), (1, lambda: key(r)), (1, lambda: (k + r.pick((1, -1, 255, 256))) % K), (1, lambda: (k << 8 * r.int(1, 15)) % K), (1, lambda: k >> 8 * r.int(1, 15)))
        act = ["key", k2]
    elif w < 9:  # any integer
        v = r.weighted((2, lambda: nat(r, 0, 300)), (1, lambda: nat(r, 0, 3000)), (1, lambda: r.pick((0, 1, 255, 256, 257, (1 << 32) - 1, 1 << 32, 1 << 128))), (1, lambda: (1 << (8 * (n := r.int(0, 60)))) | r.getrandbits(8 * n)), (1, lambda: text(r)))
        act = ["any", v]
    else:  # cut short or extended
        act = ["cut", r.int(1, 8), r.chance(0.5)]
    return dict(iv="hex:" + (vector(r) if r.chance(0.5) else ""), k=k, m=m, act=act)


def valid(d):
    a = d["act"]
    return 0 <= d["k"] < K and d["m"] >= 0 and (a[0] != "flip" or (0 < a[3] < 1 << 32 and a[1] >= 0)) and (a[0] != "key" or 0 <= a[1] < K) and (a[0] != "any" or a[1] >= 0) and (a[0] != "cut" or a[1] > 0)


def accepts(k, iv, c):
    """whether the reference's checked decryption accepts: some leading byte taken as not belonging to the keystream"""
    b = refs.tobytes(c)
    for skip in (0, 1):
        if len(b) >= skip and refs.valid_crc(int.from_bytes(refs.aes_ctr(k.to_bytes(16, "big"), iv, b[skip:]), "big")):
            return True
    return False


def check(case, ctx):
    b = bytes.fromhex(case["iv"][4:])
    iv = (b + bytes(16))[:16]
    k, m, a = case["k"], case["m"], case["act"]
    c = int(ctx("init " + (b.hex() or "-"), "encc %s %s" % (z(k), z(m)))[1][0], 16)
    expect(int(ctx.one("decc %s %s" % (z(k), z(c)))[0], 16), m, "checked decryption of the untouched ciphertext")
    size = (c.bit_length() + 7) // 8
    if a[0] == "flip":
        width = (a[3].bit_length() + 7) // 8
        room = max(0, size - width)
        at = min(a[1], room)
        if a[2]:
            at = room - at
        bad = c ^ a[3] << (8 * at)
        k2 = k
        what = "a change of bits %x at byte %d from the end of %d" % (a[3], at, size)
        ctx.label("changed at the front" if at + width >= size else "changed in the check value" if at < 4 else "changed inside")
    elif a[0] == "key":
        k2, bad = a[1], c
        if k2 == k:
            return
        what = "another key"
        ctx.label("another key")
    elif a[0] == "any":
        k2, bad = k, a[1]
        if bad == c:
            return
        what = "an arbitrary integer"
        ctx.label("arbitrary integer")
    else:
        k2, bad = k, (c >> 8 * a[1]) if a[2] else c % (1 << 8 * max(0, size - a[1]))
        what = "a ciphertext cut by %d bytes" % a[1]
        ctx.label("cut")
    if accepts(k2, iv, bad):
        ctx.label("collides by chance or has no content")
        ctx("decc %s %s" % (z(k2), z(bad)))
        return
    expect(int(ctx.one("decc %s %s" % (z(k2), z(bad)))[0], 16), 0, "checked decryption under %s after %s" % (z(k2), what))
    # still usable afterwards
    expect(int(ctx.one("decc %s %s" % (z(k), z(c)))[0], 16), m, "checked decryption of the untouched ciphertext, afterwards")


FACETS = [
    Facet("rejections", "d_aes", check, 14000, 200000, gen=gen, valid=valid, nontrivial=lambda d: d["m"] > 0,
          rule="a checked ciphertext changed within four bytes anywhere (single bits, whole bytes, at either end), another (often related) key, an arbitrary integer, a cut ciphertext; the reference decides chance collisions; non-trivial if the message is not 0"),
    bulk.facet("bulk", "d_aes", lambda c: "reject", 48, 2400, 10000, "tampered, cut and arbitrary ciphertexts and other keys; the reference decides chance collisions"),
]
